module replay

go 1.16

require github.com/aiq/tok v0.0.0

replace github.com/aiq/tok => /repo
