From a9c2d72284946a308eaad249f30295d9f0397d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 01/12] fix: ELF offset + size overflow no longer passes the
 bounds check

---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..cb1f9cd 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From 8cf889f82366ede9dc20bb62309786449cef9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 02/12] fix: an alias made of another alias redirects to the
 address the latter stands for

---
 libCrashDebug/src/MemorySim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..c8310b5 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -216,8 +216,8 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
         pRegion->baseAddress = aliasAddress;
-        pRegion->redirectAddress = redirectAddress;
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
+        pRegion->redirectAddress = redirectAddress;
         uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
-- 
2.43.0


From 6440ff9801c23f6e23217d26d3b44b3afd9bdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 03/12] fix: making a region read-only twice no longer leaks,
 and fails cleanly when out of memory

---
 libCrashDebug/src/MemorySim.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index c8310b5..e8856c2 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -241,8 +241,9 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
+    if (!pRegion->pReadCounts)
+        allocateReadCountArrayForReadOnlyRegion(pRegion);
     pRegion->isReadOnly = 1;
-    allocateReadCountArrayForReadOnlyRegion(pRegion);
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
-- 
2.43.0


From 6c64247de4e212d902f3f50ad2fc93c11bd5ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 04/12] fix: watchpoints that end at the top of the address
 space are hit

---
 libCrashDebug/src/MemorySim.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e8856c2..87d9e0f 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -78,7 +78,7 @@ static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, A
 static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type);
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress);
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress);
 
 static uint32_t read32(IMemory* pMemory, uint32_t address);
 static uint16_t read16(IMemory* pMemory, uint32_t address);
@@ -93,7 +93,7 @@ struct Watchpoint
 {
     WatchpointType type;
     uint32_t       startAddress;
-    uint32_t       endAddress;
+    uint64_t       endAddress;
 
 };
 
@@ -460,7 +460,7 @@ __throws void MemorySim_SetHardwareBreakpoint(IMemory* pMemory, uint32_t address
 static void setWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -537,7 +537,7 @@ __throws void MemorySim_ClearHardwareBreakpoint(IMemory* pMemory, uint32_t addre
 static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -623,7 +623,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type)
 {
-    uint32_t endAddress = address + size;
+    uint64_t endAddress = (uint64_t)address + size;
     uint32_t i;
 
     for (i = 0 ; i < pRegion->watchpointCount ; i++)
@@ -648,7 +648,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
     }
 }
 
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress)
 {
     return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
 }
-- 
2.43.0


From a752697053c6b84e30b41d73305d8271ec11a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 05/12] fix: end of file on stdin raises an exception instead
 of delivering NULs forever

---
 main/MockDefaults.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index c5a29df..22338b1 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -108,7 +108,7 @@ int Console_ReadStdIn()
     char    c = 0;
 
     result = read(STDIN_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != sizeof(c))
         __throw(fileException);
     return c;
 }
-- 
2.43.0


From 890d2bfc02c1e8c3805c24e30218c963332390ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 06/12] fix: GDB log memory lines with fewer than four values
 no longer fabricate zero words

---
 libCrashDebug/src/GdbLogParser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..19572cf 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -240,6 +240,8 @@ static ParseResults parseMemoryLine(const char* pLine)
     pLine = parseAddress(&results, pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
         pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    if (results.valueCount == 0)
+        results.type = TYPE_OTHER;
     return results;
 }
 
@@ -299,8 +301,13 @@ static const char* skipSymbol(const char* pLine)
 
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
-    char* pNext = NULL;
-    pResults->values[pResults->valueCount++] = strtoul(pLine, &pNext, 0);
+    char*    pNext = NULL;
+    uint32_t value = strtoul(pLine, &pNext, 0);
+
+    // There are no more values on this line once the text is no longer numeric.
+    if (pNext == pLine)
+        return pLine + strlen(pLine);
+    pResults->values[pResults->valueCount++] = value;
     return pNext;
 }
 
-- 
2.43.0


From 85f490a4701c59a9717de618763d52c117686032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 07/12] fix: exception numbers of 256 and more are no longer
 taken for system faults

The exception number is the low 9 bits of the PSR. With only 8 of them a dump
taken in external interrupt 243 (exception 259) was reported as a Hard Fault.
---
 libCrashDebug/src/mriPlatform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/mriPlatform.c b/libCrashDebug/src/mriPlatform.c
index 8b0ce10..fa5963a 100644
--- a/libCrashDebug/src/mriPlatform.c
+++ b/libCrashDebug/src/mriPlatform.c
@@ -349,7 +349,7 @@ uint8_t Platform_DetermineCauseOfException(void)
 
 static uint32_t getCurrentlyExecutingExceptionNumber(void)
 {
-    return (g_pContext->exceptionPSR & 0xFF);
+    return (g_pContext->exceptionPSR & 0x1FF);
 }
 
 void Platform_DisplayFaultCauseToGdbConsole(void)
-- 
2.43.0


From 9f8b89da9eb30e52f73cc77ab7baa6a036e38216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 08/12] fix: a read error of the dump file was taken for its
 end

---
 libCrashDebug/src/CrashCatcherDump.c      | 2 ++
 libCrashDebug/src/CrashDebugCommandLine.c | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 7baf723..d42035b 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -190,6 +190,8 @@ static int readNextMemoryRegion(Object* pObject)
     bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
     if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
         __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
+    else if (bytesRead == 0 && ferror(pObject->pFile))
+        __throw_msg(fileException, "Failed to read the dump file.");
     else if (bytesRead == 0)
         return TRUE;
     else if (bytesRead != sizeof(regionOrSentinel.region))
diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 87a74a6..1d0396c 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -329,12 +329,16 @@ static void loadDumpFile(CrashDebugCommandLine* pThis)
 static DumpFileType getFileType(const char* pDumpFilename)
 {
     uint8_t fileHeader[4] = { 0, 0, 0, 0 };
+    int     readError = 0;
 
     FILE*   pFile = fopen(pDumpFilename, "rb");
     if (!pFile)
         __throw_msg(fileException, "Failed to open \"%s\".", pDumpFilename);
     fread(fileHeader, 1, sizeof(fileHeader), pFile);
+    readError = ferror(pFile);
     fclose(pFile);
+    if (readError)
+        __throw_msg(fileException, "Failed to read \"%s\".", pDumpFilename);
 
     if (hasBinaryCrashCatcherSignature(fileHeader))
         return CRASH_CATCHER_BIN;
-- 
2.43.0


From 3ed85081a4e7ddeef94b7c863e38caa0a71f7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 09/12] fix: the memory map listed an alias of read-only memory
 as RAM

---
 libCrashDebug/src/MemorySim.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 87d9e0f..0f472fd 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -405,12 +405,14 @@ static void appendMemoryMapRegions(MemorySim* pThis, SizedBuffer* pBuffer)
 
     while (pCurr)
     {
+        /* An alias is as writeable as the memory it redirects to. */
+        int isReadOnly = pCurr->isAlias ? pCurr->pRedirect->isReadOnly : pCurr->isReadOnly;
         bytesUsed = snprintf(pBuffer->pBuffer, pBuffer->size,
                              "<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\">%s</memory>",
-                             pCurr->isReadOnly ? "flash" : "ram",
+                             isReadOnly ? "flash" : "ram",
                              pCurr->baseAddress,
                              pCurr->size,
-                             pCurr->isReadOnly ? " <property name=\"blocksize\">1</property>" : "");
+                             isReadOnly ? " <property name=\"blocksize\">1</property>" : "");
         assert (bytesUsed < (int)pBuffer->size);
         pBuffer->pBuffer += bytesUsed;
         pBuffer->size -= bytesUsed;
-- 
2.43.0


From a1824e2cb033e358532bd6b85d2b93f2b405b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 10/12] fix: a dump with a character that is no hexadecimal
 digit was rejected without an explanation

---
 libCrashDebug/src/CrashCatcherDump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index d42035b..df60675 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -308,6 +308,6 @@ static uint8_t nibbleDigitToVal(char hexDigit)
     if (hexDigit >= 'A' && hexDigit <= 'F')
         return hexDigit - 'A' + 10;
 
-    __throw(fileFormatException);
+    __throw_msg(fileFormatException, "The dump file contained a character which isn't a hexadecimal digit.");
     return 0;
 }
-- 
2.43.0


From 6361f72724cc61713489f5522cab6a8bbc7485a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 11/12] fix: a GDB log with memory that can't be written was
 rejected without an explanation

---
 libCrashDebug/src/GdbLogParser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 19572cf..80b812b 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -169,8 +169,15 @@ static void secondPassHandler(ParseObject* pObject, const ParseResults* pParseRe
     uint32_t i;
     if (pParseResults->type != TYPE_MEMORY)
         return;
-    for (i = 0 ; i < pParseResults->valueCount ; i++)
-        IMemory_Write32(pObject->pMem, pParseResults->address + i * sizeof(uint32_t), pParseResults->values[i]);
+    __try
+    {
+        for (i = 0 ; i < pParseResults->valueCount ; i++)
+            IMemory_Write32(pObject->pMem, pParseResults->address + i * sizeof(uint32_t), pParseResults->values[i]);
+    }
+    __catch
+    {
+        __throw_msg(getExceptionCode(), "Failed to load the memory values at 0x%08X from GDB log.", pParseResults->address);
+    }
 }
 
 static void parseLines(IMemory* pMem,
-- 
2.43.0


From 2c70510847f1eb4af1ff70a9493993b1b294b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 12/12] fix: GDB logs of memory at the top of the address space
 followed by address 0

A memory line at address 0x00000000 which follows a line that ends at
0xFFFFFFFF was joined with it into one region which wraps around the end of
the address space. Nothing can be written to address 0 in such a region and
so the log was rejected with "Failed to load the memory values".
---
 libCrashDebug/src/GdbLogParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 80b812b..bcfe577 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -140,7 +140,8 @@ static void firstPassHandler(ParseObject* pObject, const ParseResults* pParseRes
 
 static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pParseResults)
 {
-    if (pParseResults->address != pObject->nextExpectedAddress)
+    /* Memory which ends at the top of the address space isn't continued by memory at address 0. */
+    if (pParseResults->address != pObject->nextExpectedAddress || pParseResults->address == 0)
     {
         if (pObject->regionStart != 0xFFFFFFFF)
             MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
-- 
2.43.0

