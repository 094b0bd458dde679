#pragma once
#include "lce_stub/tflite_all.h"
