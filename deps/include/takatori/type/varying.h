#pragma once
#include <takatori/type/all.h>
