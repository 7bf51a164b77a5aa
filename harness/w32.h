// Selects the code nsimd.h uses on 32-bit x86 (there is no 32-bit C library
// here): every system header first, then the architecture macro of IA-32
// instead of those of x86-64.
#ifndef W32_H
#define W32_H
#include <assert.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <immintrin.h>
#include <limits.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#ifdef __cplusplus
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#endif
#undef __x86_64
#undef __x86_64__
#undef __amd64
#undef __amd64__
#define __i386__ 1
#endif
