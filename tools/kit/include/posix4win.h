/* Stand-in for mri's posix4win.h (submodule absent). */
#ifndef POSIX4WIN_SHIM_H_
#define POSIX4WIN_SHIM_H_
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#endif
