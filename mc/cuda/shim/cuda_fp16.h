#pragma once
#include "emu.h"
// no op of this library computes with it
struct half { unsigned short bits; };
typedef half __half;
