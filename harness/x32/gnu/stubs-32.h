/* The 32-bit C library is not installed; nothing of it is needed. */
