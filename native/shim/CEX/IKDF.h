#include VERIF_REPO_CEX(IKdf.h)
