// stands in for a 32-bit libc header when lowering for another target
