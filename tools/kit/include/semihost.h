/* Stand-in for mri's semihost.h (submodule absent). */
#ifndef SEMIHOST_SHIM_H_
#define SEMIHOST_SHIM_H_
int Semihost_IsDebuggeeMakingSemihostCall(void);
int Semihost_HandleSemihostRequest(void);
#endif
