/* the cross build has no C library of its own */
