#include VERIF_REPO_CEX(XmssCore.h)
