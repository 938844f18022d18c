/* The repository's example program (src/embedDBExample.h) with its output captured. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <stdint.h>
#include <stdbool.h>
void vpExampleText(const char *s);
void vpExampleExit(int code);
static int vpExamplePrintf(const char *f, ...) {
    static char b[4096];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    vpExampleText(b);
    return n;
}
#define printf vpExamplePrintf
#define exit vpExampleExit
#include "embedDBExample.h"
int vpExampleMain(void) { return embedDBExample(); }
