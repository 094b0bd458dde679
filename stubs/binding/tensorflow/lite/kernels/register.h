#pragma once
#include "tensorflow/lite/interpreter.h"
