/* the C library headers of this machine serve as declarations for the other architectures */
