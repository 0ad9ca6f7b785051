#pragma once
#include <takatori/value/all.h>
