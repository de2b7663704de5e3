/* Stand-ins for the functions of the absent mri core that CrashDebug calls; they record what they are given. */
#ifndef MRIH_H_
#define MRIH_H_
#include "mem.h"
#include <CrashCatcher.h>
#include <platforms.h>
#include <gdb_console.h>
#include <semihost.h>
#include <mri.h>
#include <mriPlatform.h>
#include <mriPlatformPriv.h>
struct Buffer { uint8_t byte[512]; uint8_t ch[512]; unsigned n; };      /* ch: a character, otherwise a byte in hex */
extern char     con_text[2048];      /* console text; each hex value appears as one \x01 */
extern unsigned con_len, con_values;
extern uint32_t con_value[16];
extern unsigned mri_inits, mri_runs;
extern void   (*mri_onRun)(void);
void mri_reset(void);
#endif
