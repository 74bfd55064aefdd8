#pragma once
#include "../../bitsery.h"
