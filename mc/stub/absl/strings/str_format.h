#include "absl/strings/stub_format.h"
