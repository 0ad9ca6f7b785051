#pragma once
#include <yugawara/binding_all.h>
