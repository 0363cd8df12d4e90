#include "ad_igm.hpp"
static const bool done = (md::reg_igm_all<3>(), true);
