// Stand-in: the core headers that include this use nothing of it.
#pragma once
#include "crocoddyl/core/costs/residual.hpp"
