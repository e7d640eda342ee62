// the search algorithms of the library under one roof
#pragma once
#include "algorithms/uct/uct_manager.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
#include "algorithms/common/decaying_temp.h"
struct Uct { typedef UctManagerArgs Args; typedef UctManager Mgr; typedef UctDNode D; typedef UctCNode C; };
struct Puct { typedef PuctManagerArgs Args; typedef PuctManager Mgr; typedef PuctDNode D; typedef PuctCNode C; };
struct Ments { typedef MentsManagerArgs Args; typedef MentsManager Mgr; typedef MentsDNode D; typedef MentsCNode C; };
struct DBMents { typedef MentsManagerArgs Args; typedef MentsManager Mgr; typedef DBMentsDNode D; typedef DBMentsCNode C; };
struct Rents { typedef MentsManagerArgs Args; typedef MentsManager Mgr; typedef RentsDNode D; typedef RentsCNode C; };
struct Tents { typedef MentsManagerArgs Args; typedef MentsManager Mgr; typedef TentsDNode D; typedef TentsCNode C; };
struct Dents { typedef DentsManagerArgs Args; typedef DentsManager Mgr; typedef DentsDNode D; typedef DentsCNode C; };
struct Est { typedef DentsManagerArgs Args; typedef DentsManager Mgr; typedef EstDNode D; typedef EstCNode C; };
