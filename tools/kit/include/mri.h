/* Stand-in for mri's mri.h (submodule absent). */
#ifndef MRI_SHIM_H_
#define MRI_SHIM_H_
void __mriInit(const char* pInitialParameters);
#endif
