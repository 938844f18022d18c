// Host stand-in for the Arduino core, as far as the SD wrapper and interface need it.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
