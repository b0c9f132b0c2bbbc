// Receives the library's debug messages (builds with all of them): formats
// them, so that every argument is read, and throws them away.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
__attribute__((format(printf, 1, 2))) inline int vm_say(const char* format, ...) {
    char text[600];
    va_list args;
    va_start(args, format);
    int n = vsnprintf(text, sizeof text, format, args);
    va_end(args);
    if (n < 0) abort();
    return n;
}
