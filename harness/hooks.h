/*
 * Force-included before the library: routes its four heap functions to the
 * harness. The system headers come first so that a configuration can then
 * hide compiler or platform macros from the library alone (VH_PORTABLE).
 */
#ifndef VH_HOOKS_H
#define VH_HOOKS_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <limits.h>
#include <errno.h>
#include <ctype.h>
#include <assert.h>

#ifdef __cplusplus
extern "C" {
#endif
void* vh_malloc(size_t size);
void* vh_calloc(size_t n, size_t size);
void* vh_realloc(void* ptr, size_t size);
void vh_free(void* ptr);
#ifdef __cplusplus
}
#endif

#define tommy_malloc vh_malloc
#define tommy_calloc vh_calloc
#define tommy_realloc vh_realloc
#define tommy_free vh_free

#ifdef VH_PORTABLE
#undef __GNUC__
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __i386__
#undef __i386
#undef i386
#undef _M_IX86
#undef _X86_
#undef _M_X64
#endif

/* what the library sees when compiled by MSVC */
#ifdef VH_MSVC
#undef __GNUC__
#define _MSC_VER 1900
/* MSVC has both spellings */
#define _int64 long long
#define __int64 long long
#if SIZE_MAX > 0xffffffffu
#define _WIN64 1
#endif
#endif
#endif
