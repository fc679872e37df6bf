#pragma once
#include "vfstub.h"
