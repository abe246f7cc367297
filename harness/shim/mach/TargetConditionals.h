#pragma once
#ifndef TARGET_OS_IPHONE
#define TARGET_OS_IPHONE 0
#endif
#define TARGET_OS_MAC 1
#define TARGET_OS_IOS TARGET_OS_IPHONE
#define TARGET_OS_SIMULATOR 0
