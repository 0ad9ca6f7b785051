#pragma once
#include <takatori/scalar/all.h>
