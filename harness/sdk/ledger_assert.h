#pragma once
void sdk_assert_fail(void) __attribute__((noreturn));
#define LEDGER_ASSERT(test, ...)          \
    do {                                  \
        if (!(test)) sdk_assert_fail();   \
    } while (0)
