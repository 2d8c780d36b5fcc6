package props

import (
	"io"
	"log"
)

func stdlogDiscard() { log.SetOutput(io.Discard) }
