#include <cereal/cereal.hpp>
