#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <macros.h>
#ifndef UNUSED
#define UNUSED(x) (void) (x)
#endif
#define PIC(x) (x)
#define PRINTF(...) \
    do {            \
    } while (0)
#ifndef MIN
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
#define U2BE(buf, off) ((((buf)[off] & 0xFF) << 8) | ((buf)[(off) + 1] & 0xFF))
#define U2LE(buf, off) ((((buf)[(off) + 1] & 0xFF) << 8) | ((buf)[off] & 0xFF))
#define U4BE(buf, off) (((uint32_t) U2BE(buf, off) << 16) | (U2BE(buf, (off) + 2) & 0xFFFF))
#define U4LE(buf, off) (((uint32_t) U2LE(buf, (off) + 2) << 16) | (U2LE(buf, off) & 0xFFFF))
#define U2BE_ENCODE(buf, off, value) do { (buf)[(off)] = ((value) >> 8) & 0xFF; (buf)[(off) + 1] = (value) & 0xFF; } while (0)
#define U4BE_ENCODE(buf, off, value) do { U2BE_ENCODE(buf, off, (value) >> 16); U2BE_ENCODE(buf, (off) + 2, value); } while (0)
#define ARRAYLEN(array) (sizeof(array) / sizeof(array[0]))
#define os_memmove memmove
#define os_memcpy memcpy
#define os_memset memset
#define os_memcmp memcmp
#define os_secure_memcmp(a, b, n) ((char) (memcmp(a, b, n) ? 1 : 0))
#include <ledger_assert.h>
#include <cx.h>
void os_sched_exit(int code) __attribute__((noreturn));
