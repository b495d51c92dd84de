#pragma once
#define SOFA_VERSION 211200
