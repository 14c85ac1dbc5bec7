/* empty: lets the 32-bit front end use the installed C headers; nothing is linked or run */
