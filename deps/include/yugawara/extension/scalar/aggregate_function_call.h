#pragma once
#include <yugawara/extension_all.h>
