#include "mri.h"
char     con_text[2048];
unsigned con_len, con_values;
uint32_t con_value[16];
unsigned mri_inits, mri_runs;
void   (*mri_onRun)(void);
void mri_reset(void) { con_len = con_values = 0; con_text[0] = 0; }
void WriteStringToGdbConsole(const char* p)
{
    while (*p && con_len < sizeof(con_text) - 1) con_text[con_len++] = *p++;
    con_text[con_len] = 0;
}
void WriteHexValueToGdbConsole(uint32_t v)
{
    v_assert(con_values < 16, "the text shows a bounded number of values");
    con_value[con_values++] = v;
    WriteStringToGdbConsole("\x01");
}
void Buffer_WriteByteAsHex(Buffer* b, uint8_t v) { v_assert(b->n < 512, "the packet fits"); b->ch[b->n] = 0; b->byte[b->n++] = v; }
void Buffer_WriteChar(Buffer* b, char c) { v_assert(b->n < 512, "the packet fits"); b->ch[b->n] = 1; b->byte[b->n++] = (uint8_t)c; }
uint8_t Buffer_ReadByteAsHex(Buffer* b) { v_assert(b->n < 512, "the packet is not read beyond its end"); return b->byte[b->n++]; }
void __mriInit(const char* p) { mri_inits++; v_assert(p != NULL, "mri gets its parameters"); }
void __mriDebugException(void) { mri_runs++; if (mri_onRun) mri_onRun(); }
