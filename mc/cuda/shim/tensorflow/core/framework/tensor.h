#include "tf_shim.h"
