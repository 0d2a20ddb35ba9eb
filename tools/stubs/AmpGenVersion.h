#pragma once
#define AMPGEN_MAJOR_VERSION 0
#define AMPGEN_MINOR_VERSION 0
