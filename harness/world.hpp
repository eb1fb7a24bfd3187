#pragma once
#include "engine.hpp"
#include <string>
void run_world(const std::string &prop, pbt::Ctx &ctx);
void run_c07(pbt::Ctx &ctx);
void run_c15(pbt::Ctx &ctx);
void run_c16(pbt::Ctx &ctx);
