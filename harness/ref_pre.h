// Included before everything else in the reference programs: settings come from the environment.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static double vf_num(const char* name)
{
  char b[64];
  snprintf(b, sizeof b, "VF_SET_%s", name);
  const char* v = getenv(b);
  if (!v) {
    fprintf(stderr, "HARNESS-ERROR setting %s missing\n", name);
    exit(2);
  }
  return strtod(v, 0);
}
static void vf_text(const char* name, char* out)
{
  char b[64];
  snprintf(b, sizeof b, "VF_SET_%s", name);
  const char* v = getenv(b);
  if (!v) {
    fprintf(stderr, "HARNESS-ERROR setting %s missing\n", name);
    exit(2);
  }
  strcpy(out, v);
}
static char* vf_str(const char* name)
{
  char* out = (char*)malloc(64);
  static char* kept[64];
  static int count = 0;
  if (count < 64) kept[count++] = out;  // reachable: not a leak
  vf_text(name, out);
  return out;
}
