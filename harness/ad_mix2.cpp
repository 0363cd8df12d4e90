#include "ad_mix.hpp"
static const bool done = (md::reg_mix_all<2>(), true);
