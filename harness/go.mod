module verif/monitor

go 1.21.5

require github.com/jakecoffman/cp/v2 v2.0.0

replace github.com/jakecoffman/cp/v2 => /repo
