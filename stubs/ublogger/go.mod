module gitlab.switch.ch/ub-unibas/go-ublogger

go 1.22

require github.com/rs/zerolog v1.33.0
