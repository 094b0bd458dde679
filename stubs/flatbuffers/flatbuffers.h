#pragma once
#include "lce_stub/flex.h"
