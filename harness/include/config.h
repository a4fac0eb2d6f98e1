/* Build configuration used by the checks (the project's own config.h is generated by configure). */
#pragma once
#define PACKAGE "hnco"
#define PACKAGE_NAME "HNCO"
#define PACKAGE_STRING "HNCO 0.26"
#define PACKAGE_VERSION "0.26"
#define VERSION "0.26"
