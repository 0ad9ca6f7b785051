#pragma once
#include <yugawara/analysis_all.h>
