#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include "StringBuilder.h"
static uint64_t now_us = 5000000;
long unsigned millis() { return (long unsigned)(now_us / 1000); }
long unsigned micros() { return (long unsigned)now_us; }
void sleep_ms(uint32_t m) { now_us += (uint64_t)m * 1000; }
void sleep_us(uint32_t u) { now_us += u; }
static uint32_t rng_state = 12345;
uint32_t randomUInt32() { rng_state = rng_state * 1664525u + 1013904223u; return (rng_state >> 8) * 2654435761u; }
int8_t random_fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)randomUInt32(); return 0; }
#define EXPECT(x) do { if (!(x)) { printf("demo.cpp:%d: not so: %s\n", __LINE__, #x); exit(1); } } while (0)
