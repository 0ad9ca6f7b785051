#pragma once
#include <takatori/relation/all.h>
