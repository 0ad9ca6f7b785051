#pragma once
#include <yugawara/catalog_all.h>
