#pragma once
#include <takatori/descriptor/all.h>
