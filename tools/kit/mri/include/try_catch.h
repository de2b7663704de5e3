/* Stand-in for mri/include/try_catch.h (the mri submodule is absent): only the base exception codes. */
#ifndef MRI_TRY_CATCH_SHIM_H_
#define MRI_TRY_CATCH_SHIM_H_
#define noException                 0
#define bufferOverrunException      1
#define invalidArgumentException    2
#define memFaultException           3
#define invalidValueException       4
#define invalidIndexException       5
#define exceededHardwareResourcesException 6
#define invalidDecDigitException    7
#define memAllocFailedException     8
#define mriMaxException             32
#endif
