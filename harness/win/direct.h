#pragma once
int mkdir(const char* path);
