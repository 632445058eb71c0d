// Stand-in: the sources include it without using it.
