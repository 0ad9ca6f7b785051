#pragma once
#include <takatori/datetime/all.h>
