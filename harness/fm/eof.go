package fm

import "io"

var errEOF = io.EOF
