#pragma once
#define assert(x) ((void)0)
