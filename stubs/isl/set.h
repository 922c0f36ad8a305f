#pragma once
#include "stub_all.h"
