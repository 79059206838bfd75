// Declarations of the code under test (public headers only).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <time.h>
extern "C" {
#include "bytes.h"
#include "crypto.h"
#include "json.h"
#include "state.h"
#include "ssz.h"
#include "plugin.h"
#include "chains.h"
#include "verify.h"
}
