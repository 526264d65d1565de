#define SIM_INSTANCES
#include "pch.h"
