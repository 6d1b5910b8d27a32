#include "opentelemetry/vstub.h"
