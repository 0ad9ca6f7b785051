#pragma once
#include <takatori/statement/all.h>
