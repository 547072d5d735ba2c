#pragma once
#include <units/quantity.h>
