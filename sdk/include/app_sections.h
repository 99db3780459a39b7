#pragma clang section bss="vappbss" data="vappdata"
void *memset(void *, int, __SIZE_TYPE__);
