. "$(dirname "${BASH_SOURCE[0]}")/build.sh"
