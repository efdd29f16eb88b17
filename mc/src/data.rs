//! Generated by tools/gen_data.py: published constants and a table of primes.
// name, p, a, b, r, h, gx, gy (empty: no published generator)
pub static WEIERSTRASS: &[[&str; 8]] = &[
    ["P256", "115792089210356248762697446949407573530086143415290314195533631308867097853951", "115792089210356248762697446949407573530086143415290314195533631308867097853948", "41058363725152142129326129780047268409114441015993725554835256314039467401291", "115792089210356248762697446949407573529996955224135760342422259061068512044369", "1", "48439561293906451759052585252797914202762949526041747995844080717082404635286", "36134250956749795798585127919587881956611106672985015071877198253568414405109"],
    ["P384", "39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112319", "39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112316", "27580193559959705877849011840389048093056905856361568521428707301988689241309860865136260764883745107765439761230575", "39402006196394479212279040100143613805079739270465446667946905279627659399113263569398956308152294913554433653942643", "1", "26247035095799689268623156744566981891852923491109213387815615900925518854738050089022388053975719786650872476732087", "8325710961489029985546751289520108179287853048861315594709205902480503199884419224438643760392947333078086511627871"],
    ["P521", "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151", "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057148", "1093849038073734274511112390766805569936207598951683748994586394495953116150735016013708737573759623248592132296706313309438452531591012912142327488478985984", "6864797660130609714981900799081393217269435300143305409394463459185543183397655394245057746333217197532963996371363321113864768612440380340372808892707005449", "1", "2661740802050217063228768716723360960729859168756973147706671368418802944996427808491545080627771902352094241225065558662157113545570916814161637315895999846", "3757180025770020463545507224491183603594455134769762486694567779615544477440556316691234405012945539562144444537289428522585666729196580810124344277578376784"],
    ["SECP256K1", "115792089237316195423570985008687907853269984665640564039457584007908834671663", "0", "7", "115792089237316195423570985008687907852837564279074904382605163141518161494337", "1", "55066263022277343669578718895168534326250603453777594175500187360389116729240", "32670510020758816978083085130507043184471273380659243275938904335757337482424"],
    ["SECP256K1_3ISO", "115792089237316195423570985008687907853269984665640564039457584007908834671663", "28734576633528757162648956269730739219262246272443394170905244663053633733939", "1771", "115792089237316195423570985008687907852837564279074904382605163141518161494337", "1", "", ""],
    ["BLS12381G1", "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", "0", "4", "52435875175126190479447740508185965837690552500527637822603658699938581184513", "15132376222941642753", "3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507", "1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569"],
    ["BLS12381G1_11ISO", "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", "12190336318893619529228877361869031420615612348429846051986726275283378313155663745811710833465465981901188123677", "2906670324641927570491258158026293881577086121416628140204402091718288198173574630967936031029026176254968826637280", "52435875175126190479447740508185965837690552500527637822603658699938581184513", "76329603384216526031706109802092473003", "", ""],
];
// name, p, a, d, r, h, gx, gy
pub static EDWARDS: &[[&str; 8]] = &[
    ["EDWARDS25519", "57896044618658097711785492504343953926634992332820282019728792003956564819949", "-1", "37095705934669439343138083508754565189542113879843219016388785533085940283555", "7237005577332262213973186563042994240857116359379907606001950938285454250989", "8", "15112221349535400772501151409588531511454012693041857206046113283949847762202", "46316835694926478169428394003475163141307993866256225615783033603165251855960"],
    ["EDWARDS448", "726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439", "1", "-39081", "181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779", "4", "224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710", "298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660"],
];
pub static MONTGOMERY: &[[&str; 8]] = &[
    ["CURVE25519", "57896044618658097711785492504343953926634992332820282019728792003956564819949", "486662", "1", "7237005577332262213973186563042994240857116359379907606001950938285454250989", "8", "9", "43114425171068552920764898935933967039370386198203806730763910166200978582548"],
    ["CURVE448", "726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439", "156326", "1", "181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779", "4", "5", "355293926785568175264127502063783334808976399387714271831880898435169088786967410002932673765864550910142774147268105838985595290606362"],
];
/// (bits, class mod 8, from_top, offset): p = 2^bits - offset, or 2^(bits-1) + offset
pub static PRIMES: &[(u32, u8, u8, u32)] = &[
    (3,5,1,3),(3,7,1,1),(4,3,1,5),(4,5,1,3),(5,3,1,13),(5,5,1,3),(5,7,1,1),(5,7,0,7),(5,1,1,15),(6,3,1,5),
    (6,3,0,11),(6,5,1,3),(6,5,0,5),(6,7,1,17),(6,1,1,23),(7,3,1,21),(7,3,0,3),(7,5,1,19),(7,5,0,37),(7,7,1,1),
    (7,7,0,7),(7,1,1,15),(7,1,0,9),(8,3,1,5),(8,3,0,3),(8,5,1,27),(8,5,0,21),(8,7,1,17),(8,7,0,23),(8,1,1,15),
    (8,1,0,9),(9,3,1,13),(9,3,0,27),(9,5,1,3),(9,5,0,13),(9,7,1,9),(9,7,0,7),(9,1,1,55),(9,1,0,1),(10,3,1,5),
    (10,3,0,11),(10,5,1,3),(10,5,0,29),(10,7,1,33),(10,7,0,87),(10,1,1,15),(10,1,0,9),(11,3,1,21),(11,3,0,27),
    (11,5,1,19),(11,5,0,37),(11,7,1,9),(11,7,0,7),(11,1,1,31),(11,1,0,9),(12,3,1,5),(12,3,0,35),(12,5,1,3),
    (12,5,0,5),(12,7,1,17),(12,7,0,15),(12,1,1,23),(12,1,0,33),(13,3,1,13),(13,3,0,3),(13,5,1,75),(13,5,0,37),
    (13,7,1,1),(13,7,0,15),(13,1,1,31),(13,1,0,33),(14,3,1,21),(14,3,0,27),(14,5,1,3),(14,5,0,29),(14,7,1,65),
    (14,7,0,39),(14,1,1,15),(14,1,0,17),(15,3,1,61),(15,3,0,27),(15,5,1,19),(15,5,0,37),(15,7,1,49),(15,7,0,63),
    (15,1,1,55),(15,1,0,33),(16,3,1,117),(16,3,0,3),(16,5,1,99),(16,5,0,21),(16,7,1,17),(16,7,0,15),(16,1,1,15),
    (16,1,0,33),(17,3,1,13),(17,3,0,3),(17,5,1,91),(17,5,0,21),(17,7,1,1),(17,7,0,7),(17,1,1,31),(17,1,0,1),
    (18,3,1,5),(18,3,0,99),(18,5,1,11),(18,5,0,29),(18,7,1,17),(18,7,0,39),(18,1,1,23),(18,1,0,41),(19,3,1,45),
    (19,3,0,3),(19,5,1,19),(19,5,0,93),(19,7,1,1),(19,7,0,7),(19,1,1,31),(19,1,0,9),(20,3,1,5),(20,3,0,59),
    (20,5,1,3),(20,5,0,21),(20,7,1,17),(20,7,0,63),(20,1,1,143),(20,1,0,65),(21,3,1,21),(21,3,0,51),(21,5,1,19),
    (21,5,0,13),(21,7,1,9),(21,7,0,7),(21,1,1,55),(21,1,0,25),(22,3,1,117),(22,3,0,59),(22,5,1,3),(22,5,0,77),
    (22,7,1,17),(22,7,0,71),(22,1,1,87),(22,1,0,17),(23,3,1,21),(23,3,0,67),(23,5,1,27),(23,5,0,85),(23,7,1,169),
    (23,7,0,15),(23,1,1,15),(23,1,0,25),(24,3,1,77),(24,3,0,11),(24,5,1,3),(24,5,0,29),(24,7,1,17),(24,7,0,15),
    (24,1,1,63),(24,1,0,9),(25,3,1,61),(25,3,0,43),(25,5,1,91),(25,5,0,117),(25,7,1,49),(25,7,0,231),(25,1,1,39),
    (25,1,0,73),(26,3,1,5),(26,3,0,35),(26,5,1,27),(26,5,0,69),(26,7,1,353),(26,7,0,71),(26,1,1,87),(26,1,0,41),
    (27,3,1,261),(27,3,0,187),(27,5,1,115),(27,5,0,69),(27,7,1,241),(27,7,0,15),(27,1,1,39),(27,1,0,49),(28,3,1,125),
    (28,3,0,51),(28,5,1,299),(28,5,0,29),(28,7,1,57),(28,7,0,71),(28,1,1,95),(28,1,0,201),(29,3,1,93),(29,3,0,3),
    (29,5,1,3),(29,5,0,37),(29,7,1,33),(29,7,0,7),(29,1,1,63),(29,1,0,81),(30,3,1,101),(30,3,0,11),(30,5,1,35),
    (30,5,0,117),(30,7,1,41),(30,7,0,39),(30,1,1,135),(30,1,0,89),(31,3,1,61),(31,3,0,3),(31,5,1,19),(31,5,0,85),
    (31,7,1,1),(31,7,0,7),(31,1,1,151),(31,1,0,9),(32,3,1,5),(32,3,0,11),(32,5,1,99),(32,5,0,45),(32,7,1,17),
    (32,7,0,95),(32,1,1,135),(32,1,0,65),(33,3,1,285),(33,3,0,75),(33,5,1,355),(33,5,0,61),(33,7,1,9),(33,7,0,15),
    (33,1,1,79),(33,1,0,81),(34,3,1,77),(34,3,0,35),(34,5,1,131),(34,5,0,29),(34,7,1,41),(34,7,0,39),(34,1,1,143),
    (34,1,0,17),(35,3,1,61),(35,3,0,339),(35,5,1,451),(35,5,0,85),(35,7,1,49),(35,7,0,79),(35,1,1,31),(35,1,0,25),
    (36,3,1,5),(36,3,0,83),(36,5,1,243),(36,5,0,53),(36,7,1,17),(36,7,0,231),(36,1,1,23),(36,1,0,105),(37,3,1,45),
    (37,3,0,115),(37,5,1,123),(37,5,0,117),(37,7,1,25),(37,7,0,31),(37,1,1,31),(37,1,0,177),(38,3,1,45),(38,3,0,339),
    (38,5,1,107),(38,5,0,29),(38,7,1,153),(38,7,0,95),(38,1,1,87),(38,1,0,9),(39,3,1,165),(39,3,0,67),(39,5,1,19),
    (39,5,0,13),(39,7,1,241),(39,7,0,7),(39,1,1,7),(39,1,0,97),(40,3,1,213),(40,3,0,75),(40,5,1,195),(40,5,0,45),
    (40,7,1,585),(40,7,0,23),(40,1,1,87),(40,1,0,233),(41,3,1,21),(41,3,0,27),(41,5,1,75),(41,5,0,141),(41,7,1,73),
    (41,7,0,15),(41,1,1,31),(41,1,0,97),(42,3,1,53),(42,3,0,27),(42,5,1,11),(42,5,0,125),(42,7,1,17),(42,7,0,71),
    (42,1,1,143),(42,1,0,65),(43,3,1,117),(43,3,0,75),(43,5,1,67),(43,5,0,165),(43,7,1,57),(43,7,0,15),(43,1,1,175),
    (43,1,0,129),(44,3,1,117),(44,3,0,219),(44,5,1,539),(44,5,0,29),(44,7,1,17),(44,7,0,39),(44,1,1,119),
    (44,1,0,105),(45,3,1,69),(45,3,0,27),(45,5,1,139),(45,5,0,21),(45,7,1,81),(45,7,0,7),(45,1,1,55),(45,1,0,657),
    (46,3,1,21),(46,3,0,59),(46,5,1,635),(46,5,0,165),(46,7,1,57),(46,7,0,135),(46,1,1,63),(46,1,0,129),(47,3,1,541),
    (47,3,0,139),(47,5,1,115),(47,5,0,165),(47,7,1,297),(47,7,0,15),(47,1,1,127),(47,1,0,193),(48,3,1,93),
    (48,3,0,155),(48,5,1,59),(48,5,0,5),(48,7,1,65),(48,7,0,551),(48,1,1,527),(48,1,0,9),(49,3,1,181),(49,3,0,75),
    (49,5,1,123),(49,5,0,21),(49,7,1,81),(49,7,0,367),(49,1,1,111),(49,1,0,241),(50,3,1,117),(50,3,0,459),
    (50,5,1,27),(50,5,0,69),(50,7,1,113),(50,7,0,191),(50,1,1,71),(50,1,0,329),(51,3,1,165),(51,3,0,99),(51,5,1,139),
    (51,5,0,205),(51,7,1,129),(51,7,0,55),(51,1,1,231),(51,1,0,145),(52,3,1,173),(52,3,0,275),(52,5,1,395),
    (52,5,0,21),(52,7,1,209),(52,7,0,191),(52,1,1,47),(52,1,0,65),(53,3,1,421),(53,3,0,555),(53,5,1,315),
    (53,5,0,21),(53,7,1,145),(53,7,0,55),(53,1,1,111),(53,1,0,97),(54,3,1,53),(54,3,0,75),(54,5,1,131),(54,5,0,5),
    (54,7,1,33),(54,7,0,119),(54,1,1,255),(54,1,0,41),(55,3,1,381),(55,3,0,163),(55,5,1,67),(55,5,0,373),
    (55,7,1,169),(55,7,0,159),(55,1,1,55),(55,1,0,345),(56,3,1,5),(56,3,0,3),(56,5,1,27),(56,5,0,461),(56,7,1,57),
    (56,7,0,311),(56,1,1,47),(56,1,0,105),(57,3,1,13),(57,3,0,363),(57,5,1,195),(57,5,0,957),(57,7,1,25),
    (57,7,0,175),(57,1,1,111),(57,1,0,81),(58,3,1,141),(58,3,0,35),(58,5,1,27),(58,5,0,141),(58,7,1,57),(58,7,0,95),
    (58,1,1,63),(58,1,0,9),(59,3,1,517),(59,3,0,483),(59,5,1,99),(59,5,0,69),(59,7,1,225),(59,7,0,175),(59,1,1,55),
    (59,1,0,105),(60,3,1,93),(60,3,0,131),(60,5,1,107),(60,5,0,245),(60,7,1,257),(60,7,0,663),(60,1,1,279),
    (60,1,0,161),(61,3,1,45),(61,3,0,91),(61,5,1,259),(61,5,0,213),(61,7,1,1),(61,7,0,151),(61,1,1,31),(61,1,0,33),
    (62,3,1,117),(62,3,0,371),(62,5,1,171),(62,5,0,21),(62,7,1,57),(62,7,0,15),(62,1,1,87),(62,1,0,57),(63,3,1,165),
    (63,3,0,187),(63,5,1,259),(63,5,0,189),(63,7,1,25),(63,7,0,135),(63,1,1,375),(63,1,0,169),(64,3,1,189),
    (64,3,0,99),(64,5,1,59),(64,5,0,29),(64,7,1,257),(64,7,0,255),(64,1,1,95),(64,1,0,449),(65,3,1,141),(65,3,0,51),
    (65,5,1,115),(65,5,0,13),(65,7,1,49),(65,7,0,807),(65,1,1,79),(65,1,0,81),(66,3,1,5),(66,3,0,131),(66,5,1,203),
    (66,5,0,165),(66,7,1,297),(66,7,0,207),(66,1,1,495),(66,1,0,225),(67,3,1,61),(67,3,0,987),(67,5,1,19),
    (67,5,0,85),(67,7,1,49),(67,7,0,679),(67,1,1,31),(67,1,0,9),(68,3,1,125),(68,3,0,3),(68,5,1,83),(68,5,0,501),
    (68,7,1,345),(68,7,0,63),(68,1,1,23),(68,1,0,153),(69,3,1,93),(69,3,0,163),(69,5,1,19),(69,5,0,61),(69,7,1,129),
    (69,7,0,231),(69,1,1,103),(69,1,0,33),(70,3,1,797),(70,3,0,851),(70,5,1,35),(70,5,0,29),(70,7,1,273),
    (70,7,0,239),(70,1,1,71),(70,1,0,105),(71,3,1,325),(71,3,0,67),(71,5,1,411),(71,5,0,189),(71,7,1,441),
    (71,7,0,79),(71,1,1,231),(71,1,0,25),(72,3,1,93),(72,3,0,11),(72,5,1,107),(72,5,0,173),(72,7,1,129),(72,7,0,63),
    (72,1,1,167),(72,1,0,281),(73,3,1,69),(73,3,0,115),(73,5,1,475),(73,5,0,301),(73,7,1,273),(73,7,0,15),
    (73,1,1,199),(73,1,0,105),(74,3,1,45),(74,3,0,291),(74,5,1,35),(74,5,0,29),(74,7,1,57),(74,7,0,759),(74,1,1,135),
    (74,1,0,305),(75,3,1,325),(75,3,0,67),(75,5,1,427),(75,5,0,37),(75,7,1,97),(75,7,0,175),(75,1,1,207),
    (75,1,0,505),(76,3,1,117),(76,3,0,75),(76,5,1,123),(76,5,0,53),(76,7,1,425),(76,7,0,231),(76,1,1,15),
    (76,1,0,33),(77,3,1,261),(77,3,0,51),(77,5,1,43),(77,5,0,261),(77,7,1,33),(77,7,0,15),(77,1,1,295),(77,1,0,1017),
    (78,3,1,837),(78,3,0,11),(78,5,1,11),(78,5,0,69),(78,7,1,153),(78,7,0,71),(78,1,1,95),(78,1,0,57),(79,3,1,277),
    (79,3,0,43),(79,5,1,67),(79,5,0,109),(79,7,1,249),(79,7,0,7),(79,1,1,199),(79,1,0,273),(80,3,1,93),(80,3,0,371),
    (80,5,1,1307),(80,5,0,29),(80,7,1,65),(80,7,0,23),(80,1,1,143),(80,1,0,105),(81,3,1,205),(81,3,0,235),
    (81,5,1,51),(81,5,0,13),(81,7,1,433),(81,7,0,343),(81,1,1,63),(81,1,0,457),(82,3,1,365),(82,3,0,147),
    (82,5,1,315),(82,5,0,101),(82,7,1,57),(82,7,0,159),(82,1,1,375),(82,1,0,17),(83,3,1,117),(83,3,0,43),
    (83,5,1,139),(83,5,0,45),(83,7,1,97),(83,7,0,79),(83,1,1,55),(83,1,0,9),(84,3,1,69),(84,3,0,75),(84,5,1,35),
    (84,5,0,341),(84,7,1,633),(84,7,0,119),(84,1,1,215),(84,1,0,89),(85,3,1,61),(85,3,0,3),(85,5,1,19),(85,5,0,45),
    (85,7,1,433),(85,7,0,247),(85,1,1,295),(85,1,0,73),(86,3,1,261),(86,3,0,171),(86,5,1,35),(86,5,0,237),
    (86,7,1,41),(86,7,0,399),(86,1,1,71),(86,1,0,305),(87,3,1,181),(87,3,0,27),(87,5,1,67),(87,5,0,69),(87,7,1,129),
    (87,7,0,183),(87,1,1,391),(87,1,0,457),(88,3,1,605),(88,3,0,243),(88,5,1,299),(88,5,0,221),(88,7,1,753),
    (88,7,0,39),(88,1,1,455),(88,1,0,305),(89,3,1,21),(89,3,0,315),(89,5,1,99),(89,5,0,133),(89,7,1,1),(89,7,0,7),
    (89,1,1,31),(89,1,0,273),(90,3,1,53),(90,3,0,107),(90,5,1,75),(90,5,0,29),(90,7,1,33),(90,7,0,447),(90,1,1,263),
    (90,1,0,89),(91,3,1,45),(91,3,0,355),(91,5,1,315),(91,5,0,133),(91,7,1,81),(91,7,0,399),(91,1,1,111),
    (91,1,0,585),(92,3,1,149),(92,3,0,59),(92,5,1,83),(92,5,0,413),(92,7,1,497),(92,7,0,135),(92,1,1,519),
    (92,1,0,129),(93,3,1,405),(93,3,0,483),(93,5,1,51),(93,5,0,165),(93,7,1,25),(93,7,0,223),(93,1,1,79),
    (93,1,0,25),(94,3,1,173),(94,3,0,1691),(94,5,1,3),(94,5,0,149),(94,7,1,105),(94,7,0,215),(94,1,1,407),
    (94,1,0,105),(95,3,1,37),(95,3,0,147),(95,5,1,211),(95,5,0,213),(95,7,1,441),(95,7,0,255),(95,1,1,15),
    (95,1,0,129),(96,3,1,93),(96,3,0,363),(96,5,1,147),(96,5,0,53),(96,7,1,17),(96,7,0,335),(96,1,1,87),(96,1,0,9),
    (97,3,1,141),(97,3,0,403),(97,5,1,595),(97,5,0,61),(97,7,1,729),(97,7,0,151),(97,1,1,399),(97,1,0,81),
    (98,3,1,117),(98,3,0,267),(98,5,1,51),(98,5,0,581),(98,7,1,65),(98,7,0,359),(98,1,1,471),(98,1,0,105),
    (99,3,1,381),(99,3,0,187),(99,5,1,115),(99,5,0,37),(99,7,1,145),(99,7,0,7),(99,1,1,247),(99,1,0,193),
    (100,3,1,285),(100,3,0,443),(100,5,1,99),(100,5,0,509),(100,7,1,153),(100,7,0,255),(100,1,1,15),(100,1,0,809),
    (101,3,1,69),(101,3,0,331),(101,5,1,99),(101,5,0,277),(101,7,1,1081),(101,7,0,447),(101,1,1,703),(101,1,0,577),
    (102,3,1,1125),(102,3,0,459),(102,5,1,483),(102,5,0,149),(102,7,1,33),(102,7,0,399),(102,1,1,63),(102,1,0,81),
    (103,3,1,237),(103,3,0,267),(103,5,1,339),(103,5,0,325),(103,7,1,97),(103,7,0,519),(103,1,1,127),(103,1,0,1953),
    (104,3,1,29),(104,3,0,1595),(104,5,1,395),(104,5,0,125),(104,7,1,17),(104,7,0,239),(104,1,1,639),(104,1,0,81),
    (105,3,1,13),(105,3,0,307),(105,5,1,139),(105,5,0,837),(105,7,1,313),(105,7,0,111),(105,1,1,151),(105,1,0,337),
    (106,3,1,117),(106,3,0,339),(106,5,1,1187),(106,5,0,77),(106,7,1,593),(106,7,0,39),(106,1,1,407),(106,1,0,81),
    (107,3,1,1077),(107,3,0,99),(107,5,1,171),(107,5,0,165),(107,7,1,1),(107,7,0,199),(107,1,1,919),(107,1,0,177),
    (108,3,1,269),(108,3,0,51),(108,5,1,59),(108,5,0,509),(108,7,1,137),(108,7,0,39),(108,1,1,383),(108,1,0,1145),
    (109,3,1,165),(109,3,0,315),(109,5,1,91),(109,5,0,117),(109,7,1,945),(109,7,0,87),(109,1,1,31),(109,1,0,33),
    (110,3,1,21),(110,3,0,147),(110,5,1,195),(110,5,0,261),(110,7,1,657),(110,7,0,671),(110,1,1,135),(110,1,0,729),
    (111,3,1,37),(111,3,0,27),(111,5,1,835),(111,5,0,453),(111,7,1,985),(111,7,0,159),(111,1,1,175),(111,1,0,193),
    (112,3,1,189),(112,3,0,51),(112,5,1,75),(112,5,0,165),(112,7,1,297),(112,7,0,1103),(112,1,1,327),(112,1,0,129),
    (113,3,1,133),(113,3,0,91),(113,5,1,211),(113,5,0,357),(113,7,1,1513),(113,7,0,655),(113,1,1,463),(113,1,0,25),
    (114,3,1,53),(114,3,0,515),(114,5,1,11),(114,5,0,485),(114,7,1,153),(114,7,0,551),(114,1,1,303),(114,1,0,281),
    (115,3,1,85),(115,3,0,43),(115,5,1,67),(115,5,0,733),(115,7,1,97),(115,7,0,327),(115,1,1,711),(115,1,0,129),
    (116,3,1,69),(116,3,0,555),(116,5,1,3),(116,5,0,381),(116,7,1,89),(116,7,0,71),(116,1,1,303),(116,1,0,209),
    (117,3,1,373),(117,3,0,427),(117,5,1,451),(117,5,0,357),(117,7,1,793),(117,7,0,1183),(117,1,1,279),(117,1,0,33),
    (118,3,1,5),(118,3,0,35),(118,5,1,563),(118,5,0,29),(118,7,1,273),(118,7,0,855),(118,1,1,111),(118,1,0,641),
    (119,3,1,69),(119,3,0,163),(119,5,1,867),(119,5,0,69),(119,7,1,169),(119,7,0,423),(119,1,1,231),(119,1,0,25),
    (120,3,1,765),(120,3,0,491),(120,5,1,395),(120,5,0,453),(120,7,1,873),(120,7,0,303),(120,1,1,119),(120,1,0,9),
    (121,3,1,165),(121,3,0,451),(121,5,1,531),(121,5,0,525),(121,7,1,73),(121,7,0,823),(121,1,1,655),(121,1,0,625),
    (122,3,1,341),(122,3,0,227),(122,5,1,3),(122,5,0,461),(122,7,1,113),(122,7,0,351),(122,1,1,167),(122,1,0,41),
    (123,3,1,1029),(123,3,0,427),(123,5,1,67),(123,5,0,277),(123,7,1,241),(123,7,0,375),(123,1,1,79),(123,1,0,417),
    (124,3,1,165),(124,3,0,435),(124,5,1,59),(124,5,0,165),(124,7,1,1289),(124,7,0,423),(124,1,1,327),(124,1,0,1649),
    (125,3,1,405),(125,3,0,67),(125,5,1,579),(125,5,0,253),(125,7,1,9),(125,7,0,111),(125,1,1,135),(125,1,0,73),
    (126,3,1,237),(126,3,0,27),(126,5,1,203),(126,5,0,629),(126,7,1,137),(126,7,0,95),(126,1,1,335),(126,1,0,321),
    (127,3,1,309),(127,3,0,99),(127,5,1,507),(127,5,0,109),(127,7,1,1),(127,7,0,7),(127,1,1,39),(127,1,0,217),
    (128,3,1,173),(128,3,0,123),(128,5,1,275),(128,5,0,29),(128,7,1,233),(128,7,0,303),(128,1,1,159),(128,1,0,65),
    (129,3,1,613),(129,3,0,51),(129,5,1,315),(129,5,0,165),(129,7,1,25),(129,7,0,463),(129,1,1,735),(129,1,0,81),
    (130,3,1,5),(130,3,0,75),(130,5,1,27),(130,5,0,669),(130,7,1,113),(130,7,0,311),(130,1,1,447),(130,1,0,17),
    (131,3,1,69),(131,3,0,403),(131,5,1,315),(131,5,0,189),(131,7,1,385),(131,7,0,975),(131,1,1,271),(131,1,0,169),
    (132,3,1,405),(132,3,0,155),(132,5,1,347),(132,5,0,309),(132,7,1,465),(132,7,0,39),(132,1,1,527),(132,1,0,905),
    (133,3,1,453),(133,3,0,67),(133,5,1,99),(133,5,0,157),(133,7,1,1209),(133,7,0,87),(133,1,1,103),(133,1,0,1537),
    (134,3,1,45),(134,3,0,27),(134,5,1,603),(134,5,0,125),(134,7,1,185),(134,7,0,207),(134,1,1,495),(134,1,0,161),
    (135,3,1,45),(135,3,0,27),(135,5,1,795),(135,5,0,909),(135,7,1,105),(135,7,0,223),(135,1,1,55),(135,1,0,265),
    (136,3,1,365),(136,3,0,963),(136,5,1,243),(136,5,0,701),(136,7,1,113),(136,7,0,311),(136,1,1,335),(136,1,0,33),
    (137,3,1,13),(137,3,0,147),(137,5,1,339),(137,5,0,85),(137,7,1,33),(137,7,0,207),(137,1,1,111),(137,1,0,121),
    (138,3,1,237),(138,3,0,155),(138,5,1,203),(138,5,0,197),(138,7,1,105),(138,7,0,431),(138,1,1,423),(138,1,0,177),
    (139,3,1,301),(139,3,0,259),(139,5,1,187),(139,5,0,165),(139,7,1,2265),(139,7,0,87),(139,1,1,447),(139,1,0,145),
    (140,3,1,77),(140,3,0,155),(140,5,1,27),(140,5,0,525),(140,7,1,57),(140,7,0,575),(140,1,1,623),(140,1,0,273),
    (141,3,1,165),(141,3,0,915),(141,5,1,171),(141,5,0,37),(141,7,1,9),(141,7,0,207),(141,1,1,103),(141,1,0,177),
    (142,3,1,365),(142,3,0,1491),(142,5,1,1491),(142,5,0,5),(142,7,1,585),(142,7,0,95),(142,1,1,111),(142,1,0,521),
    (143,3,1,69),(143,3,0,387),(143,5,1,355),(143,5,0,669),(143,7,1,465),(143,7,0,303),(143,1,1,127),(143,1,0,217),
    (144,3,1,413),(144,3,0,2259),(144,5,1,83),(144,5,0,5),(144,7,1,369),(144,7,0,359),(144,1,1,167),(144,1,0,81),
    (145,3,1,453),(145,3,0,1395),(145,5,1,355),(145,5,0,733),(145,7,1,481),(145,7,0,175),(145,1,1,151),(145,1,0,465),
    (146,3,1,573),(146,3,0,27),(146,5,1,1371),(146,5,0,381),(146,7,1,153),(146,7,0,135),(146,1,1,335),(146,1,0,137),
    (147,3,1,325),(147,3,0,163),(147,5,1,387),(147,5,0,85),(147,7,1,145),(147,7,0,207),(147,1,1,615),(147,1,0,553),
    (148,3,1,197),(148,3,0,51),(148,5,1,347),(148,5,0,149),(148,7,1,585),(148,7,0,95),(148,1,1,167),(148,1,0,305),
    (149,3,1,381),(149,3,0,91),(149,5,1,99),(149,5,0,253),(149,7,1,33),(149,7,0,183),(149,1,1,31),(149,1,0,753),
    (150,3,1,5),(150,3,0,795),(150,5,1,3),(150,5,0,69),(150,7,1,185),(150,7,0,407),(150,1,1,1175),(150,1,0,425),
    (151,3,1,309),(151,3,0,147),(151,5,1,195),(151,5,0,717),(151,7,1,465),(151,7,0,663),(151,1,1,295),(151,1,0,385),
    (152,3,1,989),(152,3,0,459),(152,5,1,539),(152,5,0,45),(152,7,1,17),(152,7,0,335),(152,1,1,23),(152,1,0,1233),
    (153,3,1,69),(153,3,0,267),(153,5,1,171),(153,5,0,253),(153,7,1,145),(153,7,0,687),(153,1,1,399),(153,1,0,993),
    (154,3,1,437),(154,3,0,539),(154,5,1,243),(154,5,0,677),(154,7,1,393),(154,7,0,95),(154,1,1,1023),(154,1,0,345),
    (155,3,1,381),(155,3,0,27),(155,5,1,499),(155,5,0,373),(155,7,1,49),(155,7,0,295),(155,1,1,31),(155,1,0,273),
    (156,3,1,173),(156,3,0,195),(156,5,1,195),(156,5,0,501),(156,7,1,609),(156,7,0,15),(156,1,1,143),(156,1,0,273),
    (157,3,1,133),(157,3,0,115),(157,5,1,19),(157,5,0,45),(157,7,1,753),(157,7,0,655),(157,1,1,1015),(157,1,0,345),
    (158,3,1,213),(158,3,0,179),(158,5,1,155),(158,5,0,69),(158,7,1,321),(158,7,0,695),(158,1,1,15),(158,1,0,569),
    (159,3,1,301),(159,3,0,859),(159,5,1,91),(159,5,0,189),(159,7,1,241),(159,7,0,639),(159,1,1,535),(159,1,0,97),
    (160,3,1,189),(160,3,0,299),(160,5,1,75),(160,5,0,341),(160,7,1,57),(160,7,0,663),(160,1,1,47),(160,1,0,1073),
    (161,3,1,493),(161,3,0,291),(161,5,1,1011),(161,5,0,357),(161,7,1,1305),(161,7,0,7),(161,1,1,159),(161,1,0,921),
    (162,3,1,101),(162,3,0,107),(162,5,1,627),(162,5,0,597),(162,7,1,1113),(162,7,0,1559),(162,1,1,447),(162,1,0,417),
    (163,3,1,69),(163,3,0,19),(163,5,1,867),(163,5,0,277),(163,7,1,577),(163,7,0,903),(163,1,1,55),(163,1,0,49),
    (164,3,1,485),(164,3,0,195),(164,5,1,155),(164,5,0,21),(164,7,1,1785),(164,7,0,623),(164,1,1,63),(164,1,0,1553),
    (165,3,1,61),(165,3,0,915),(165,5,1,115),(165,5,0,117),(165,7,1,25),(165,7,0,135),(165,1,1,271),(165,1,0,921),
    (166,3,1,5),(166,3,0,147),(166,5,1,1811),(166,5,0,141),(166,7,1,633),(166,7,0,455),(166,1,1,935),(166,1,0,1041),
    (167,3,1,1221),(167,3,0,1843),(167,5,1,771),(167,5,0,85),(167,7,1,577),(167,7,0,1023),(167,1,1,135),(167,1,0,865),
    (168,3,1,909),(168,3,0,83),(168,5,1,1467),(168,5,0,581),(168,7,1,257),(168,7,0,1455),(168,1,1,1143),(168,1,0,321),
    (169,3,1,973),(169,3,0,355),(169,5,1,643),(169,5,0,117),(169,7,1,841),(169,7,0,87),(169,1,1,1519),(169,1,0,721),
    (170,3,1,357),(170,3,0,147),(170,5,1,195),(170,5,0,1269),(170,7,1,153),(170,7,0,399),(170,1,1,143),(170,1,0,2009),
    (171,3,1,661),(171,3,0,403),(171,5,1,19),(171,5,0,85),(171,7,1,649),(171,7,0,55),(171,1,1,231),(171,1,0,49),
    (172,3,1,525),(172,3,0,2723),(172,5,1,155),(172,5,0,341),(172,7,1,537),(172,7,0,231),(172,1,1,95),(172,1,0,129),
    (173,3,1,421),(173,3,0,1131),(173,5,1,531),(173,5,0,357),(173,7,1,313),(173,7,0,487),(173,1,1,55),(173,1,0,105),
    (174,3,1,1293),(174,3,0,1275),(174,5,1,3),(174,5,0,77),(174,7,1,17),(174,7,0,191),(174,1,1,143),(174,1,0,1337),
    (175,3,1,229),(175,3,0,915),(175,5,1,267),(175,5,0,37),(175,7,1,1089),(175,7,0,7),(175,1,1,727),(175,1,0,73),
    (176,3,1,533),(176,3,0,1131),(176,5,1,563),(176,5,0,1085),(176,7,1,233),(176,7,0,735),(176,1,1,327),(176,1,0,9),
    (177,3,1,1029),(177,3,0,427),(177,5,1,339),(177,5,0,957),(177,7,1,609),(177,7,0,1111),(177,1,1,919),(177,1,0,1105),
    (178,3,1,405),(178,3,0,75),(178,5,1,563),(178,5,0,317),(178,7,1,41),(178,7,0,407),(178,1,1,951),(178,1,0,105),
    (179,3,1,205),(179,3,0,99),(179,5,1,507),(179,5,0,189),(179,7,1,49),(179,7,0,87),(179,1,1,159),(179,1,0,193),
    (180,3,1,189),(180,3,0,363),(180,5,1,107),(180,5,0,309),(180,7,1,569),(180,7,0,543),(180,1,1,47),(180,1,0,441),
    (181,3,1,165),(181,3,0,115),(181,5,1,283),(181,5,0,861),(181,7,1,825),(181,7,0,15),(181,1,1,199),(181,1,0,193),
    (182,3,1,413),(182,3,0,995),(182,5,1,267),(182,5,0,165),(182,7,1,161),(182,7,0,759),(182,1,1,1311),(182,1,0,641),
    (183,3,1,357),(183,3,0,427),(183,5,1,147),(183,5,0,405),(183,7,1,609),(183,7,0,207),(183,1,1,319),(183,1,0,49),
    (184,3,1,309),(184,3,0,683),(184,5,1,59),(184,5,0,381),(184,7,1,33),(184,7,0,215),(184,1,1,287),(184,1,0,1041),
    (185,3,1,429),(185,3,0,27),(185,5,1,339),(185,5,0,277),(185,7,1,321),(185,7,0,63),(185,1,1,303),(185,1,0,1201),
    (186,3,1,485),(186,3,0,179),(186,5,1,371),(186,5,0,1269),(186,7,1,1497),(186,7,0,159),(186,1,1,2607),
    (186,1,0,825),(187,3,1,85),(187,3,0,315),(187,5,1,1411),(187,5,0,205),(187,7,1,105),(187,7,0,367),(187,1,1,391),
    (187,1,0,249),(188,3,1,125),(188,3,0,659),(188,5,1,363),(188,5,0,581),(188,7,1,705),(188,7,0,303),(188,1,1,143),
    (188,1,0,393),(189,3,1,301),(189,3,0,123),(189,5,1,819),(189,5,0,397),(189,7,1,25),(189,7,0,391),(189,1,1,583),
    (189,1,0,57),(190,3,1,717),(190,3,0,35),(190,5,1,11),(190,5,0,765),(190,7,1,33),(190,7,0,135),(190,1,1,95),
    (190,1,0,1569),(191,3,1,69),(191,3,0,427),(191,5,1,19),(191,5,0,277),(191,7,1,201),(191,7,0,223),(191,1,1,1591),
    (191,1,0,129),(192,3,1,237),(192,3,0,315),(192,5,1,915),(192,5,0,5),(192,7,1,489),(192,7,0,95),(192,1,1,399),
    (192,1,0,225),(193,3,1,909),(193,3,0,1131),(193,5,1,123),(193,5,0,133),(193,7,1,1369),(193,7,0,511),(193,1,1,31),
    (193,1,0,1113),(194,3,1,317),(194,3,0,2067),(194,5,1,75),(194,5,0,1029),(194,7,1,33),(194,7,0,71),(194,1,1,1191),
    (194,1,0,65),(195,3,1,1005),(195,3,0,27),(195,5,1,915),(195,5,0,517),(195,7,1,1081),(195,7,0,103),(195,1,1,135),
    (195,1,0,753),(196,3,1,533),(196,3,0,35),(196,5,1,459),(196,5,0,53),(196,7,1,585),(196,7,0,119),(196,1,1,15),
    (196,1,0,753),(197,3,1,853),(197,3,0,1555),(197,5,1,75),(197,5,0,21),(197,7,1,169),(197,7,0,471),(197,1,1,111),
    (197,1,0,505),(198,3,1,45),(198,3,0,107),(198,5,1,627),(198,5,0,117),(198,7,1,17),(198,7,0,119),(198,1,1,615),
    (198,1,0,441),(199,3,1,189),(199,3,0,763),(199,5,1,459),(199,5,0,277),(199,7,1,49),(199,7,0,15),(199,1,1,735),
    (199,1,0,49),(200,3,1,117),(200,3,0,123),(200,5,1,75),(200,5,0,101),(200,7,1,1889),(200,7,0,455),(200,1,1,383),
    (200,1,0,585),(201,3,1,381),(201,3,0,235),(201,5,1,1035),(201,5,0,1285),(201,7,1,313),(201,7,0,1255),
    (201,1,1,55),(201,1,0,697),(202,3,1,845),(202,3,0,539),(202,5,1,195),(202,5,0,1277),(202,7,1,273),(202,7,0,351),
    (202,1,1,183),(202,1,0,617),(203,3,1,237),(203,3,0,67),(203,5,1,187),(203,5,0,189),(203,7,1,1729),(203,7,0,903),
    (203,1,1,159),(203,1,0,385),(204,3,1,1125),(204,3,0,659),(204,5,1,1515),(204,5,0,725),(204,7,1,249),(204,7,0,15),
    (204,1,1,167),(204,1,0,1329),(205,3,1,229),(205,3,0,1947),(205,5,1,1219),(205,5,0,157),(205,7,1,81),(205,7,0,7),
    (205,1,1,343),(205,1,0,625),(206,3,1,5),(206,3,0,779),(206,5,1,1443),(206,5,0,581),(206,7,1,297),(206,7,0,1359),
    (206,1,1,63),(206,1,0,1049),(207,3,1,157),(207,3,0,75),(207,5,1,91),(207,5,0,229),(207,7,1,297),(207,7,0,247),
    (207,1,1,871),(207,1,0,33),(208,3,1,1749),(208,3,0,203),(208,5,1,299),(208,5,0,813),(208,7,1,1505),(208,7,0,711),
    (208,1,1,423),(208,1,0,1145),(209,3,1,301),(209,3,0,507),(209,5,1,451),(209,5,0,661),(209,7,1,33),(209,7,0,375),
    (209,1,1,439),(209,1,0,1177),(210,3,1,165),(210,3,0,1659),(210,5,1,171),(210,5,0,261),(210,7,1,65),(210,7,0,47),
    (210,1,1,47),(210,1,0,257),(211,3,1,837),(211,3,0,403),(211,5,1,1099),(211,5,0,565),(211,7,1,481),(211,7,0,543),
    (211,1,1,175),(211,1,0,33),(212,3,1,29),(212,3,0,323),(212,5,1,99),(212,5,0,725),(212,7,1,497),(212,7,0,71),
    (212,1,1,23),(212,1,0,1785),(213,3,1,61),(213,3,0,1227),(213,5,1,3),(213,5,0,261),(213,7,1,513),(213,7,0,223),
    (213,1,1,1335),(213,1,0,57),(214,3,1,813),(214,3,0,75),(214,5,1,395),(214,5,0,221),(214,7,1,185),(214,7,0,1431),
    (214,1,1,255),(214,1,0,297),(215,3,1,157),(215,3,0,1443),(215,5,1,1147),(215,5,0,309),(215,7,1,897),(215,7,0,7),
    (215,1,1,1479),(215,1,0,217),(216,3,1,1253),(216,3,0,251),(216,5,1,683),(216,5,0,813),(216,7,1,377),(216,7,0,335),
    (216,1,1,479),(216,1,0,713),(217,3,1,61),(217,3,0,1323),(217,5,1,675),(217,5,0,1261),(217,7,1,369),(217,7,0,423),
    (217,1,1,519),(217,1,0,457),(218,3,1,117),(218,3,0,315),(218,5,1,243),(218,5,0,437),(218,7,1,33),(218,7,0,839),
    (218,1,1,623),(218,1,0,129),(219,3,1,261),(219,3,0,163),(219,5,1,355),(219,5,0,637),(219,7,1,121),(219,7,0,975),
    (219,1,1,471),(219,1,0,609),(220,3,1,77),(220,3,0,1211),(220,5,1,395),(220,5,0,245),(220,7,1,473),(220,7,0,911),
    (220,1,1,167),(220,1,0,185),(221,3,1,133),(221,3,0,955),(221,5,1,3),(221,5,0,1597),(221,7,1,1945),(221,7,0,463),
    (221,1,1,759),(221,1,0,217),(222,3,1,117),(222,3,0,1371),(222,5,1,875),(222,5,0,509),(222,7,1,641),(222,7,0,791),
    (222,1,1,263),(222,1,0,81),(223,3,1,549),(223,3,0,163),(223,5,1,235),(223,5,0,109),(223,7,1,777),(223,7,0,127),
    (223,1,1,1711),(223,1,0,49),(224,3,1,573),(224,3,0,1539),(224,5,1,363),(224,5,0,189),(224,7,1,857),(224,7,0,255),
    (224,1,1,63),(224,1,0,489),(225,3,1,261),(225,3,0,1995),(225,5,1,1131),(225,5,0,813),(225,7,1,49),(225,7,0,735),
    (225,1,1,103),(225,1,0,1761),(226,3,1,5),(226,3,0,1011),(226,5,1,155),(226,5,0,141),(226,7,1,417),(226,7,0,119),
    (226,1,1,215),(226,1,0,297),(227,3,1,405),(227,3,0,867),(227,5,1,835),(227,5,0,1429),(227,7,1,441),(227,7,0,735),
    (227,1,1,855),(227,1,0,1473),(228,3,1,93),(228,3,0,483),(228,5,1,723),(228,5,0,1853),(228,7,1,185),(228,7,0,1271),
    (228,1,1,455),(228,1,0,1433),(229,3,1,565),(229,3,0,3),(229,5,1,91),(229,5,0,397),(229,7,1,3609),(229,7,0,631),
    (229,1,1,775),(229,1,0,841),(230,3,1,77),(230,3,0,251),(230,5,1,27),(230,5,0,981),(230,7,1,345),(230,7,0,1847),
    (230,1,1,351),(230,1,0,249),(231,3,1,165),(231,3,0,67),(231,5,1,235),(231,5,0,1213),(231,7,1,217),(231,7,0,183),
    (231,1,1,391),(231,1,0,897),(232,3,1,1197),(232,3,0,171),(232,5,1,875),(232,5,0,381),(232,7,1,665),(232,7,0,599),
    (232,1,1,567),(232,1,0,105),(233,3,1,373),(233,3,0,787),(233,5,1,3),(233,5,0,357),(233,7,1,289),(233,7,0,807),
    (233,1,1,159),(233,1,0,801),(234,3,1,341),(234,3,0,947),(234,5,1,83),(234,5,0,1397),(234,7,1,257),(234,7,0,431),
    (234,1,1,503),(234,1,0,489),(235,3,1,181),(235,3,0,43),(235,5,1,259),(235,5,0,597),(235,7,1,537),(235,7,0,255),
    (235,1,1,15),(235,1,0,225),(236,3,1,1317),(236,3,0,1011),(236,5,1,875),(236,5,0,581),(236,7,1,209),(236,7,0,95),
    (236,1,1,455),(236,1,0,81),(237,3,1,181),(237,3,0,403),(237,5,1,1515),(237,5,0,237),(237,7,1,649),(237,7,0,2223),
    (237,1,1,1711),(237,1,0,25),(238,3,1,1685),(238,3,0,635),(238,5,1,731),(238,5,0,621),(238,7,1,161),(238,7,0,431),
    (238,1,1,215),(238,1,0,249),(239,3,1,421),(239,3,0,67),(239,5,1,531),(239,5,0,189),(239,7,1,2001),(239,7,0,199),
    (239,1,1,87),(239,1,0,2457),(240,3,1,797),(240,3,0,131),(240,5,1,467),(240,5,0,29),(240,7,1,1529),(240,7,0,431),
    (240,1,1,887),(240,1,0,1233),(241,3,1,2133),(241,3,0,115),(241,5,1,819),(241,5,0,325),(241,7,1,2065),
    (241,7,0,751),(241,1,1,39),(241,1,0,897),(242,3,1,1077),(242,3,0,1179),(242,5,1,267),(242,5,0,261),(242,7,1,281),
    (242,7,0,639),(242,1,1,63),(242,1,0,345),(243,3,1,1117),(243,3,0,1467),(243,5,1,475),(243,5,0,69),(243,7,1,9),
    (243,7,0,519),(243,1,1,31),(243,1,0,273),(244,3,1,189),(244,3,0,59),(244,5,1,1923),(244,5,0,645),(244,7,1,329),
    (244,7,0,303),(244,1,1,767),(244,1,0,1529),(245,3,1,861),(245,3,0,235),(245,5,1,163),(245,5,0,133),(245,7,1,489),
    (245,7,0,727),(245,1,1,303),(245,1,0,2113),(246,3,1,797),(246,3,0,315),(246,5,1,107),(246,5,0,317),(246,7,1,945),
    (246,7,0,855),(246,1,1,567),(246,1,0,1121),(247,3,1,309),(247,3,0,435),(247,5,1,411),(247,5,0,1285),(247,7,1,81),
    (247,7,0,1615),(247,1,1,1047),(247,1,0,337),(248,3,1,237),(248,3,0,315),(248,5,1,387),(248,5,0,269),(248,7,1,1097),
    (248,7,0,63),(248,1,1,887),(248,1,0,273),(249,3,1,693),(249,3,0,483),(249,5,1,75),(249,5,0,453),(249,7,1,385),
    (249,7,0,375),(249,1,1,279),(249,1,0,81),(250,3,1,1053),(250,3,0,315),(250,5,1,2331),(250,5,0,981),(250,7,1,1785),
    (250,7,0,119),(250,1,1,207),(250,1,0,521),(251,3,1,325),(251,3,0,843),(251,5,1,355),(251,5,0,2493),(251,7,1,9),
    (251,7,0,423),(251,1,1,615),(251,1,0,25),(252,3,1,413),(252,3,0,483),(252,5,1,1515),(252,5,0,69),(252,7,1,129),
    (252,7,0,671),(252,1,1,143),(252,1,0,65),(253,3,1,421),(253,3,0,2275),(253,5,1,1723),(253,5,0,421),(253,7,1,273),
    (253,7,0,1687),(253,1,1,391),(253,1,0,1137),(254,3,1,245),(254,3,0,51),(254,5,1,1427),(254,5,0,365),(254,7,1,521),
    (254,7,0,39),(254,1,1,1223),(254,1,0,329),(255,3,1,765),(255,3,0,163),(255,5,1,19),(255,5,0,1149),(255,7,1,921),
    (255,7,0,79),(255,1,1,31),(255,1,0,153),(256,3,1,189),(256,3,0,275),(256,5,1,435),(256,5,0,141),(256,7,1,617),
    (256,7,0,95),(256,1,1,2063),(256,1,0,1073),(257,3,1,93),(257,3,0,795),(257,5,1,363),(257,5,0,301),(257,7,1,2113),
    (257,7,0,487),(257,1,1,679),(257,1,0,297),(258,3,1,1773),(258,3,0,155),(258,5,1,1203),(258,5,0,509),(258,7,1,1017),
    (258,7,0,2079),(258,1,1,87),(258,1,0,897),(259,3,1,885),(259,3,0,555),(259,5,1,987),(259,5,0,477),(259,7,1,361),
    (259,7,0,655),(259,1,1,1071),(259,1,0,73),(260,3,1,149),(260,3,0,435),(260,5,1,803),(260,5,0,989),(260,7,1,689),
    (260,7,0,1191),(260,1,1,687),(260,1,0,473),(261,3,1,261),(261,3,0,387),(261,5,1,1251),(261,5,0,397),(261,7,1,361),
    (261,7,0,223),(261,1,1,223),(261,1,0,2017),(262,3,1,453),(262,3,0,627),(262,5,1,515),(262,5,0,501),(262,7,1,1641),
    (262,7,0,311),(262,1,1,71),(262,1,0,105),(263,3,1,1101),(263,3,0,555),(263,5,1,747),(263,5,0,1045),(263,7,1,1017),
    (263,7,0,79),(263,1,1,1767),(263,1,0,729),(264,3,1,1245),(264,3,0,35),(264,5,1,275),(264,5,0,293),(264,7,1,1257),
    (264,7,0,855),(264,1,1,567),(264,1,0,9),(265,3,1,1285),(265,3,0,1555),(265,5,1,115),(265,5,0,1605),(265,7,1,49),
    (265,7,0,175),(265,1,1,1063),(265,1,0,625),(266,3,1,213),(266,3,0,515),(266,5,1,3),(266,5,0,77),(266,7,1,2177),
    (266,7,0,807),(266,1,1,4391),(266,1,0,137),(267,3,1,517),(267,3,0,1435),(267,5,1,427),(267,5,0,133),(267,7,1,265),
    (267,7,0,135),(267,1,1,2079),(267,1,0,193),(268,3,1,77),(268,3,0,579),(268,5,1,1635),(268,5,0,309),(268,7,1,329),
    (268,7,0,1151),(268,1,1,719),(268,1,0,2153),(269,3,1,709),(269,3,0,43),(269,5,1,603),(269,5,0,1005),(269,7,1,241),
    (269,7,0,111),(269,1,1,343),(269,1,0,121),(270,3,1,53),(270,3,0,1355),(270,5,1,611),(270,5,0,245),(270,7,1,2657),
    (270,7,0,447),(270,1,1,1071),(270,1,0,2169),(271,3,1,1221),(271,3,0,1107),(271,5,1,1419),(271,5,0,133),
    (271,7,1,169),(271,7,0,127),(271,1,1,967),(271,1,0,705),(272,3,1,237),(272,3,0,1443),(272,5,1,1443),(272,5,0,941),
    (272,7,1,689),(272,7,0,855),(272,1,1,287),(272,1,0,2681),(273,3,1,205),(273,3,0,163),(273,5,1,795),(273,5,0,453),
    (273,7,1,321),(273,7,0,223),(273,1,1,2863),(273,1,0,57),(274,3,1,1077),(274,3,0,35),(274,5,1,707),(274,5,0,5),
    (274,7,1,305),(274,7,0,455),(274,1,1,351),(274,1,0,1209),(275,3,1,205),(275,3,0,67),(275,5,1,651),(275,5,0,685),
    (275,7,1,129),(275,7,0,63),(275,1,1,199),(275,1,0,177),(276,3,1,453),(276,3,0,363),(276,5,1,483),(276,5,0,1421),
    (276,7,1,89),(276,7,0,911),(276,1,1,1287),(276,1,0,545),(277,3,1,181),(277,3,0,963),(277,5,1,859),(277,5,0,157),
    (277,7,1,2289),(277,7,0,1431),(277,1,1,103),(277,1,0,2593),(278,3,1,93),(278,3,0,179),(278,5,1,947),(278,5,0,101),
    (278,7,1,665),(278,7,0,759),(278,1,1,623),(278,1,0,465),(279,3,1,69),(279,3,0,2547),(279,5,1,2035),(279,5,0,117),
    (279,7,1,2137),(279,7,0,559),(279,1,1,231),(279,1,0,1513),(280,3,1,725),(280,3,0,3971),(280,5,1,195),
    (280,5,0,1421),(280,7,1,105),(280,7,0,303),(280,1,1,47),(280,1,0,89),(281,3,1,853),(281,3,0,547),(281,5,1,139),
    (281,5,0,45),(281,7,1,601),(281,7,0,1023),(281,1,1,615),(281,1,0,633),(282,3,1,93),(282,3,0,1139),(282,5,1,83),
    (282,5,0,197),(282,7,1,425),(282,7,0,567),(282,1,1,503),(282,1,0,617),(283,3,1,45),(283,3,0,603),(283,5,1,2107),
    (283,5,0,189),(283,7,1,1225),(283,7,0,159),(283,1,1,1239),(283,1,0,537),(284,3,1,173),(284,3,0,539),(284,5,1,323),
    (284,5,0,741),(284,7,1,2009),(284,7,0,375),(284,1,1,2159),(284,1,0,513),(285,3,1,1965),(285,3,0,531),
    (285,5,1,1243),(285,5,0,525),(285,7,1,9),(285,7,0,343),(285,1,1,735),(285,1,0,513),(286,3,1,165),(286,3,0,1155),
    (286,5,1,915),(286,5,0,509),(286,7,1,521),(286,7,0,719),(286,1,1,983),(286,1,0,17),(287,3,1,1861),(287,3,0,43),
    (287,5,1,115),(287,5,0,357),(287,7,1,937),(287,7,0,303),(287,1,1,951),(287,1,0,345),(288,3,1,525),(288,3,0,35),
    (288,5,1,1355),(288,5,0,989),(288,7,1,1473),(288,7,0,1103),(288,1,1,167),(288,1,0,65),(289,3,1,493),(289,3,0,555),
    (289,5,1,843),(289,5,0,541),(289,7,1,945),(289,7,0,127),(289,1,1,1383),(289,1,0,1041),(290,3,1,1221),
    (290,3,0,987),(290,5,1,83),(290,5,0,101),(290,7,1,825),(290,7,0,1599),(290,1,1,47),(290,1,0,617),(291,3,1,861),
    (291,3,0,1227),(291,5,1,19),(291,5,0,565),(291,7,1,1017),(291,7,0,1455),(291,1,1,4087),(291,1,0,553),
    (292,3,1,197),(292,3,0,611),(292,5,1,923),(292,5,0,653),(292,7,1,657),(292,7,0,71),(292,1,1,167),(292,1,0,305),
    (293,3,1,1389),(293,3,0,91),(293,5,1,1459),(293,5,0,13),(293,7,1,601),(293,7,0,1695),(293,1,1,1095),(293,1,0,793),
    (294,3,1,245),(294,3,0,491),(294,5,1,35),(294,5,0,741),(294,7,1,177),(294,7,0,239),(294,1,1,135),(294,1,0,609),
    (295,3,1,421),(295,3,0,67),(295,5,1,171),(295,5,0,205),(295,7,1,585),(295,7,0,1783),(295,1,1,511),(295,1,0,169),
    (296,3,1,285),(296,3,0,291),(296,5,1,3267),(296,5,0,701),(296,7,1,785),(296,7,0,143),(296,1,1,1007),(296,1,0,9),
    (297,3,1,285),(297,3,0,163),(297,5,1,123),(297,5,0,61),(297,7,1,1273),(297,7,0,247),(297,1,1,703),(297,1,0,825),
    (298,3,1,341),(298,3,0,11),(298,5,1,483),(298,5,0,245),(298,7,1,953),(298,7,0,215),(298,1,1,1223),(298,1,0,17),
    (299,3,1,69),(299,3,0,1227),(299,5,1,675),(299,5,0,813),(299,7,1,1017),(299,7,0,463),(299,1,1,1015),(299,1,0,1753),
    (300,3,1,413),(300,3,0,443),(300,5,1,483),(300,5,0,645),(300,7,1,153),(300,7,0,455),(300,1,1,383),(300,1,0,2225),
    (301,3,1,861),(301,3,0,1051),(301,5,1,523),(301,5,0,157),(301,7,1,265),(301,7,0,631),(301,1,1,2271),(301,1,0,385),
    (302,3,1,293),(302,3,0,27),(302,5,1,267),(302,5,0,165),(302,7,1,1601),(302,7,0,1751),(302,1,1,647),(302,1,0,321),
    (303,3,1,381),(303,3,0,307),(303,5,1,835),(303,5,0,853),(303,7,1,121),(303,7,0,879),(303,1,1,207),(303,1,0,609),
    (304,3,1,1685),(304,3,0,1083),(304,5,1,75),(304,5,0,101),(304,7,1,1937),(304,7,0,455),(304,1,1,2255),
    (304,1,0,753),(305,3,1,429),(305,3,0,1003),(305,5,1,1195),(305,5,0,37),(305,7,1,3873),(305,7,0,703),(305,1,1,103),
    (305,1,0,3753),(306,3,1,1797),(306,3,0,131),(306,5,1,947),(306,5,0,285),(306,7,1,1017),(306,7,0,1815),
    (306,1,1,503),(306,1,0,1689),(307,3,1,1021),(307,3,0,2283),(307,5,1,99),(307,5,0,45),(307,7,1,369),(307,7,0,375),
    (307,1,1,255),(307,1,0,73),(308,3,1,189),(308,3,0,875),(308,5,1,1139),(308,5,0,725),(308,7,1,777),(308,7,0,135),
    (308,1,1,159),(308,1,0,753),(309,3,1,493),(309,3,0,27),(309,5,1,3243),(309,5,0,621),(309,7,1,2673),(309,7,0,1495),
    (309,1,1,3799),(309,1,0,81),(310,3,1,77),(310,3,0,659),(310,5,1,635),(310,5,0,1029),(310,7,1,1097),(310,7,0,1047),
    (310,1,1,255),(310,1,0,969),(311,3,1,45),(311,3,0,283),(311,5,1,75),(311,5,0,189),(311,7,1,297),(311,7,0,15),
    (311,1,1,199),(311,1,0,265),(312,3,1,2069),(312,3,0,419),(312,5,1,203),(312,5,0,725),(312,7,1,689),(312,7,0,111),
    (312,1,1,1575),(312,1,0,665),(313,3,1,669),(313,3,0,91),(313,5,1,139),(313,5,0,1557),(313,7,1,1993),(313,7,0,463),
    (313,1,1,343),(313,1,0,2265),(314,3,1,453),(314,3,0,2699),(314,5,1,1067),(314,5,0,125),(314,7,1,113),
    (314,7,0,279),(314,1,1,695),(314,1,0,305),(315,3,1,5077),(315,3,0,307),(315,5,1,691),(315,5,0,93),(315,7,1,465),
    (315,7,0,1719),(315,1,1,1479),(315,1,0,657),(316,3,1,293),(316,3,0,203),(316,5,1,243),(316,5,0,885),(316,7,1,57),
    (316,7,0,1895),(316,1,1,399),(316,1,0,81),(317,3,1,1773),(317,3,0,507),(317,5,1,379),(317,5,0,1221),(317,7,1,33),
    (317,7,0,87),(317,1,1,1351),(317,1,0,385),(318,3,1,165),(318,3,0,987),(318,5,1,275),(318,5,0,317),(318,7,1,681),
    (318,7,0,1455),(318,1,1,807),(318,1,0,9),(319,3,1,2989),(319,3,0,1435),(319,5,1,795),(319,5,0,933),(319,7,1,865),
    (319,7,0,975),(319,1,1,1191),(319,1,0,1393),(320,3,1,197),(320,3,0,123),(320,5,1,843),(320,5,0,101),(320,7,1,825),
    (320,7,0,375),(320,1,1,743),(320,1,0,9),(321,3,1,45),(321,3,0,27),(321,5,1,1395),(321,5,0,261),(321,7,1,9),
    (321,7,0,391),(321,1,1,1431),(321,1,0,561),(322,3,1,2373),(322,3,0,1067),(322,5,1,11),(322,5,0,165),(322,7,1,185),
    (322,7,0,927),(322,1,1,2583),(322,1,0,561),(323,3,1,141),(323,3,0,219),(323,5,1,1731),(323,5,0,1749),
    (323,7,1,1345),(323,7,0,1359),(323,1,1,247),(323,1,0,297),(324,3,1,2573),(324,3,0,1595),(324,5,1,923),
    (324,5,0,413),(324,7,1,177),(324,7,0,1031),(324,1,1,23),(324,1,0,273),(325,3,1,1261),(325,3,0,1027),(325,5,1,1051),
    (325,5,0,397),(325,7,1,433),(325,7,0,1407),(325,1,1,399),(325,1,0,921),(326,3,1,101),(326,3,0,315),(326,5,1,731),
    (326,5,0,605),(326,7,1,1833),(326,7,0,455),(326,1,1,215),(326,1,0,137),(327,3,1,1077),(327,3,0,1219),
    (327,5,1,595),(327,5,0,1525),(327,7,1,1297),(327,7,0,967),(327,1,1,951),(327,1,0,249),(328,3,1,437),(328,3,0,1299),
    (328,5,1,155),(328,5,0,453),(328,7,1,977),(328,7,0,3015),(328,1,1,1119),(328,1,0,9),(329,3,1,2605),(329,3,0,1035),
    (329,5,1,139),(329,5,0,2053),(329,7,1,273),(329,7,0,15),(329,1,1,2343),(329,1,0,433),(330,3,1,437),(330,3,0,1947),
    (330,5,1,1595),(330,5,0,1917),(330,7,1,1001),(330,7,0,39),(330,1,1,255),(330,1,0,417),(331,3,1,61),(331,3,0,435),
    (331,5,1,459),(331,5,0,93),(331,7,1,745),(331,7,0,295),(331,1,1,1599),(331,1,0,1369),(332,3,1,1077),(332,3,0,203),
    (332,5,1,707),(332,5,0,1485),(332,7,1,1217),(332,7,0,1751),(332,1,1,1487),(332,1,0,489),(333,3,1,741),
    (333,3,0,435),(333,5,1,483),(333,5,0,973),(333,7,1,913),(333,7,0,1615),(333,1,1,1791),(333,1,0,393),(334,3,1,981),
    (334,3,0,939),(334,5,1,243),(334,5,0,285),(334,7,1,1425),(334,7,0,1551),(334,1,1,711),(334,1,0,1097),
    (335,3,1,541),(335,3,0,507),(335,5,1,1227),(335,5,0,1005),(335,7,1,321),(335,7,0,727),(335,1,1,511),(335,1,0,2337),
    (336,3,1,1413),(336,3,0,803),(336,5,1,3),(336,5,0,173),(336,7,1,17),(336,7,0,183),(336,1,1,303),(336,1,0,345),
    (337,3,1,1693),(337,3,0,2163),(337,5,1,75),(337,5,0,3141),(337,7,1,1785),(337,7,0,1215),(337,1,1,1615),
    (337,1,0,241),(338,3,1,1053),(338,3,0,1067),(338,5,1,275),(338,5,0,1197),(338,7,1,401),(338,7,0,71),(338,1,1,15),
    (338,1,0,105),(339,3,1,901),(339,3,0,99),(339,5,1,147),(339,5,0,757),(339,7,1,865),(339,7,0,903),(339,1,1,415),
    (339,1,0,97),(340,3,1,293),(340,3,0,275),(340,5,1,299),(340,5,0,933),(340,7,1,1209),(340,7,0,303),(340,1,1,1439),
    (340,1,0,185),(341,3,1,229),(341,3,0,291),(341,5,1,1203),(341,5,0,661),(341,7,1,2185),(341,7,0,1527),
    (341,1,1,631),(341,1,0,1873),(342,3,1,237),(342,3,0,2379),(342,5,1,707),(342,5,0,5),(342,7,1,65),(342,7,0,1815),
    (342,1,1,263),(342,1,0,1089),(343,3,1,501),(343,3,0,2019),(343,5,1,291),(343,5,0,85),(343,7,1,561),(343,7,0,15),
    (343,1,1,199),(343,1,0,577),(344,3,1,845),(344,3,0,1971),(344,5,1,219),(344,5,0,269),(344,7,1,569),(344,7,0,903),
    (344,1,1,119),(344,1,0,225),(345,3,1,493),(345,3,0,1771),(345,5,1,475),(345,5,0,2365),(345,7,1,1113),
    (345,7,0,231),(345,1,1,951),(345,1,0,1465),(346,3,1,45),(346,3,0,107),(346,5,1,363),(346,5,0,1181),(346,7,1,57),
    (346,7,0,1551),(346,1,1,407),(346,1,0,1185),(347,3,1,2109),(347,3,0,1075),(347,5,1,211),(347,5,0,1053),
    (347,7,1,1065),(347,7,0,1039),(347,1,1,367),(347,1,0,1273),(348,3,1,117),(348,3,0,491),(348,5,1,4347),
    (348,5,0,509),(348,7,1,257),(348,7,0,783),(348,1,1,143),(348,1,0,441),(349,3,1,285),(349,3,0,2515),(349,5,1,579),
    (349,5,0,541),(349,7,1,433),(349,7,0,927),(349,1,1,895),(349,1,0,241),(350,3,1,1461),(350,3,0,2267),(350,5,1,131),
    (350,5,0,485),(350,7,1,113),(350,7,0,1295),(350,1,1,2975),(350,1,0,377),(351,3,1,61),(351,3,0,427),(351,5,1,291),
    (351,5,0,4269),(351,7,1,4177),(351,7,0,2679),(351,1,1,135),(351,1,0,489),(352,3,1,2157),(352,3,0,491),
    (352,5,1,963),(352,5,0,413),(352,7,1,657),(352,7,0,143),(352,1,1,879),(352,1,0,345),(353,3,1,621),(353,3,0,1891),
    (353,5,1,139),(353,5,0,1485),(353,7,1,489),(353,7,0,55),(353,1,1,735),(353,1,0,81),(354,3,1,525),(354,3,0,467),
    (354,5,1,251),(354,5,0,141),(354,7,1,153),(354,7,0,335),(354,1,1,783),(354,1,0,329),(355,3,1,589),(355,3,0,1443),
    (355,5,1,2355),(355,5,0,805),(355,7,1,49),(355,7,0,1303),(355,1,1,3015),(355,1,0,4233),(356,3,1,173),
    (356,3,0,435),(356,5,1,227),(356,5,0,141),(356,7,1,393),(356,7,0,1415),(356,1,1,759),(356,1,0,1193),(357,3,1,541),
    (357,3,0,691),(357,5,1,243),(357,5,0,1093),(357,7,1,1033),(357,7,0,3327),(357,1,1,2575),(357,1,0,945),
    (358,3,1,1005),(358,3,0,347),(358,5,1,1211),(358,5,0,677),(358,7,1,1161),(358,7,0,231),(358,1,1,671),
    (358,1,0,449),(359,3,1,901),(359,3,0,2667),(359,5,1,411),(359,5,0,2173),(359,7,1,3769),(359,7,0,2055),
    (359,1,1,855),(359,1,0,417),(360,3,1,2117),(360,3,0,779),(360,5,1,1155),(360,5,0,141),(360,7,1,1785),
    (360,7,0,23),(360,1,1,719),(360,1,0,641),(361,3,1,3501),(361,3,0,955),(361,5,1,1779),(361,5,0,1453),(361,7,1,369),
    (361,7,0,471),(361,1,1,663),(361,1,0,105),(362,3,1,605),(362,3,0,507),(362,5,1,1563),(362,5,0,909),(362,7,1,1073),
    (362,7,0,407),(362,1,1,663),(362,1,0,281),(363,3,1,2341),(363,3,0,1563),(363,5,1,75),(363,5,0,2109),(363,7,1,97),
    (363,7,0,2407),(363,1,1,111),(363,1,0,705),(364,3,1,1653),(364,3,0,555),(364,5,1,923),(364,5,0,309),(364,7,1,2009),
    (364,7,0,911),(364,1,1,1239),(364,1,0,561),(365,3,1,261),(365,3,0,867),(365,5,1,723),(365,5,0,1261),(365,7,1,169),
    (365,7,0,1351),(365,1,1,295),(365,1,0,2113),(366,3,1,837),(366,3,0,611),(366,5,1,507),(366,5,0,3021),
    (366,7,1,657),(366,7,0,239),(366,1,1,167),(366,1,0,3537),(367,3,1,1509),(367,3,0,483),(367,5,1,1827),
    (367,5,0,309),(367,7,1,801),(367,7,0,375),(367,1,1,487),(367,1,0,537),(368,3,1,3437),(368,3,0,531),(368,5,1,315),
    (368,5,0,69),(368,7,1,785),(368,7,0,1743),(368,1,1,2567),(368,1,0,1073),(369,3,1,445),(369,3,0,1843),
    (369,5,1,195),(369,5,0,3661),(369,7,1,25),(369,7,0,127),(369,1,1,1551),(369,1,0,265),(370,3,1,813),(370,3,0,675),
    (370,5,1,2315),(370,5,0,1421),(370,7,1,1977),(370,7,0,575),(370,1,1,495),(370,1,0,65),(371,3,1,741),(371,3,0,555),
    (371,5,1,747),(371,5,0,69),(371,7,1,2305),(371,7,0,1215),(371,1,1,1647),(371,1,0,1065),(372,3,1,797),
    (372,3,0,1595),(372,5,1,563),(372,5,0,4421),(372,7,1,177),(372,7,0,2111),(372,1,1,207),(372,1,0,329),
    (373,3,1,333),(373,3,0,147),(373,5,1,843),(373,5,0,717),(373,7,1,489),(373,7,0,2863),(373,1,1,735),(373,1,0,897),
    (374,3,1,3557),(374,3,0,1187),(374,5,1,371),(374,5,0,2549),(374,7,1,65),(374,7,0,1047),(374,1,1,495),
    (374,1,0,585),(375,3,1,1669),(375,3,0,475),(375,5,1,979),(375,5,0,3117),(375,7,1,1089),(375,7,0,2935),
    (375,1,1,679),(375,1,0,289),(376,3,1,629),(376,3,0,171),(376,5,1,1035),(376,5,0,1173),(376,7,1,57),(376,7,0,1479),
    (376,1,1,519),(376,1,0,81),(377,3,1,1485),(377,3,0,115),(377,5,1,259),(377,5,0,301),(377,7,1,321),(377,7,0,1887),
    (377,1,1,511),(377,1,0,1513),(378,3,1,2693),(378,3,0,435),(378,5,1,3315),(378,5,0,557),(378,7,1,417),
    (378,7,0,2231),(378,1,1,447),(378,1,0,681),(379,3,1,925),(379,3,0,883),(379,5,1,19),(379,5,0,4477),(379,7,1,1609),
    (379,7,0,463),(379,1,1,319),(379,1,0,25),(380,3,1,677),(380,3,0,99),(380,5,1,483),(380,5,0,693),(380,7,1,65),
    (380,7,0,1583),(380,1,1,1175),(380,1,0,2825),(381,3,1,2629),(381,3,0,1507),(381,5,1,1203),(381,5,0,981),
    (381,7,1,313),(381,7,0,127),(381,1,1,735),(381,1,0,553),(382,3,1,677),(382,3,0,507),(382,5,1,227),(382,5,0,2237),
    (382,7,1,105),(382,7,0,1535),(382,1,1,5807),(382,1,0,705),(383,3,1,421),(383,3,0,1603),(383,5,1,187),
    (383,5,0,1117),(383,7,1,1849),(383,7,0,255),(383,1,1,31),(383,1,0,1665),(384,3,1,317),(384,3,0,1971),
    (384,5,1,2147),(384,5,0,429),(384,7,1,1617),(384,7,0,3759),(384,1,1,2319),(384,1,0,369),(385,3,1,2005),
    (385,3,0,331),(385,5,1,2811),(385,5,0,933),(385,7,1,265),(385,7,0,231),(385,1,1,1215),(385,1,0,417),(386,3,1,2493),
    (386,3,0,395),(386,5,1,747),(386,5,0,189),(386,7,1,881),(386,7,0,2591),(386,1,1,231),(386,1,0,1169),(387,3,1,621),
    (387,3,0,235),(387,5,1,795),(387,5,0,357),(387,7,1,1689),(387,7,0,3319),(387,1,1,615),(387,1,0,1089),
    (388,3,1,45),(388,3,0,2195),(388,5,1,347),(388,5,0,789),(388,7,1,2609),(388,7,0,3815),(388,1,1,63),(388,1,0,1473),
    (389,3,1,21),(389,3,0,435),(389,5,1,51),(389,5,0,133),(389,7,1,313),(389,7,0,5295),(389,1,1,103),(389,1,0,433),
    (390,3,1,293),(390,3,0,539),(390,5,1,1283),(390,5,0,1701),(390,7,1,137),(390,7,0,959),(390,1,1,383),(390,1,0,89),
    (391,3,1,645),(391,3,0,3),(391,5,1,675),(391,5,0,133),(391,7,1,105),(391,7,0,759),(391,1,1,127),(391,1,0,873),
    (392,3,1,1389),(392,3,0,1235),(392,5,1,107),(392,5,0,885),(392,7,1,3113),(392,7,0,935),(392,1,1,623),
    (392,1,0,1281),(393,3,1,93),(393,3,0,1411),(393,5,1,331),(393,5,0,517),(393,7,1,1113),(393,7,0,207),(393,1,1,2551),
    (393,1,0,993),(394,3,1,3597),(394,3,0,291),(394,5,1,987),(394,5,0,77),(394,7,1,377),(394,7,0,327),(394,1,1,447),
    (394,1,0,249),(395,3,1,2205),(395,3,0,267),(395,5,1,531),(395,5,0,2149),(395,7,1,1137),(395,7,0,735),
    (395,1,1,2215),(395,1,0,97),(396,3,1,605),(396,3,0,963),(396,5,1,3827),(396,5,0,29),(396,7,1,945),(396,7,0,2111),
    (396,1,1,695),(396,1,0,1169),(397,3,1,1165),(397,3,0,451),(397,5,1,2331),(397,5,0,253),(397,7,1,81),(397,7,0,231),
    (397,1,1,463),(397,1,0,1185),(398,3,1,1893),(398,3,0,387),(398,5,1,131),(398,5,0,629),(398,7,1,777),(398,7,0,615),
    (398,1,1,231),(398,1,0,1305),(399,3,1,2749),(399,3,0,1147),(399,5,1,91),(399,5,0,1005),(399,7,1,937),
    (399,7,0,127),(399,1,1,9855),(399,1,0,3273),(400,3,1,1205),(400,3,0,51),(400,5,1,3107),(400,5,0,485),
    (400,7,1,593),(400,7,0,735),(400,1,1,663),(400,1,0,593),(401,3,1,261),(401,3,0,435),(401,5,1,1731),(401,5,0,181),
    (401,7,1,465),(401,7,0,1327),(401,1,1,31),(401,1,0,1161),(402,3,1,53),(402,3,0,1379),(402,5,1,1131),(402,5,0,989),
    (402,7,1,737),(402,7,0,807),(402,1,1,1703),(402,1,0,1689),(403,3,1,3645),(403,3,0,1443),(403,5,1,379),
    (403,5,0,2389),(403,7,1,2841),(403,7,0,5055),(403,1,1,607),(403,1,0,505),(404,3,1,309),(404,3,0,683),
    (404,5,1,395),(404,5,0,293),(404,7,1,257),(404,7,0,1271),(404,1,1,2567),(404,1,0,713),(405,3,1,3061),
    (405,3,0,2203),(405,5,1,235),(405,5,0,837),(405,7,1,553),(405,7,0,55),(405,1,1,663),(405,1,0,265),(406,3,1,1805),
    (406,3,0,539),(406,5,1,923),(406,5,0,789),(406,7,1,2481),(406,7,0,887),(406,1,1,1655),(406,1,0,1265),
    (407,3,1,157),(407,3,0,1387),(407,5,1,171),(407,5,0,405),(407,7,1,225),(407,7,0,583),(407,1,1,559),(407,1,0,129),
    (408,3,1,1005),(408,3,0,659),(408,5,1,1419),(408,5,0,309),(408,7,1,1409),(408,7,0,6735),(408,1,1,1703),
    (408,1,0,641),(409,3,1,1021),(409,3,0,267),(409,5,1,4891),(409,5,0,37),(409,7,1,585),(409,7,0,231),(409,1,1,103),
    (409,1,0,385),(410,3,1,2397),(410,3,0,587),(410,5,1,51),(410,5,0,29),(410,7,1,2057),(410,7,0,399),(410,1,1,455),
    (410,1,0,977),(411,3,1,205),(411,3,0,643),(411,5,1,339),(411,5,0,765),(411,7,1,969),(411,7,0,375),(411,1,1,2559),
    (411,1,0,33),(412,3,1,3629),(412,3,0,3491),(412,5,1,243),(412,5,0,333),(412,7,1,473),(412,7,0,63),(412,1,1,183),
    (412,1,0,345),(413,3,1,21),(413,3,0,67),(413,5,1,2011),(413,5,0,7125),(413,7,1,801),(413,7,0,463),(413,1,1,519),
    (413,1,0,385),(414,3,1,453),(414,3,0,411),(414,5,1,35),(414,5,0,221),(414,7,1,17),(414,7,0,1167),(414,1,1,1295),
    (414,1,0,1121),(415,3,1,45),(415,3,0,315),(415,5,1,267),(415,5,0,1957),(415,7,1,361),(415,7,0,2047),(415,1,1,55),
    (415,1,0,537),(416,3,1,453),(416,3,0,323),(416,5,1,435),(416,5,0,669),(416,7,1,1953),(416,7,0,1095),(416,1,1,863),
    (416,1,0,1313),(417,3,1,1029),(417,3,0,235),(417,5,1,1603),(417,5,0,1261),(417,7,1,3145),(417,7,0,2263),
    (417,1,1,1095),(417,1,0,921),(418,3,1,1485),(418,3,0,651),(418,5,1,147),(418,5,0,245),(418,7,1,297),(418,7,0,495),
    (418,1,1,2063),(418,1,0,929),(419,3,1,69),(419,3,0,163),(419,5,1,219),(419,5,0,3205),(419,7,1,1665),(419,7,0,2103),
    (419,1,1,1767),(419,1,0,937),(420,3,1,317),(420,3,0,299),(420,5,1,1539),(420,5,0,1653),(420,7,1,1505),
    (420,7,0,431),(420,1,1,335),(420,1,0,905),(421,3,1,1005),(421,3,0,1443),(421,5,1,883),(421,5,0,45),(421,7,1,1881),
    (421,7,0,543),(421,1,1,271),(421,1,0,705),(422,3,1,101),(422,3,0,1635),(422,5,1,923),(422,5,0,261),(422,7,1,233),
    (422,7,0,1655),(422,1,1,791),(422,1,0,105),(423,3,1,885),(423,3,0,163),(423,5,1,91),(423,5,0,805),(423,7,1,1249),
    (423,7,0,2199),(423,1,1,1479),(423,1,0,273),(424,3,1,389),(424,3,0,459),(424,5,1,963),(424,5,0,309),(424,7,1,417),
    (424,7,0,2055),(424,1,1,1967),(424,1,0,593),(425,3,1,301),(425,3,0,163),(425,5,1,379),(425,5,0,637),(425,7,1,1153),
    (425,7,0,423),(425,1,1,391),(425,1,0,6105),(426,3,1,4853),(426,3,0,387),(426,5,1,1067),(426,5,0,869),
    (426,7,1,321),(426,7,0,671),(426,1,1,3831),(426,1,0,57),(427,3,1,781),(427,3,0,2203),(427,5,1,1075),(427,5,0,1725),
    (427,7,1,1137),(427,7,0,423),(427,1,1,2047),(427,1,0,2017),(428,3,1,413),(428,3,0,659),(428,5,1,387),
    (428,5,0,69),(428,7,1,65),(428,7,0,183),(428,1,1,2367),(428,1,0,489),(429,3,1,2125),(429,3,0,651),(429,5,1,2835),
    (429,5,0,837),(429,7,1,1033),(429,7,0,2535),(429,1,1,55),(429,1,0,345),(430,3,1,677),(430,3,0,131),(430,5,1,4355),
    (430,5,0,3029),(430,7,1,2385),(430,7,0,5079),(430,1,1,1023),(430,1,0,921),(431,3,1,325),(431,3,0,3075),
    (431,5,1,3667),(431,5,0,2173),(431,7,1,201),(431,7,0,2535),(431,1,1,1759),(431,1,0,73),(432,3,1,6533),
    (432,3,0,2531),(432,5,1,299),(432,5,0,173),(432,7,1,633),(432,7,0,791),(432,1,1,335),(432,1,0,545),(433,3,1,1621),
    (433,3,0,1387),(433,5,1,2883),(433,5,0,1093),(433,7,1,601),(433,7,0,2167),(433,1,1,1743),(433,1,0,3553),
    (434,3,1,461),(434,3,0,2051),(434,5,1,323),(434,5,0,629),(434,7,1,201),(434,7,0,335),(434,1,1,183),(434,1,0,2249),
    (435,3,1,349),(435,3,0,1147),(435,5,1,387),(435,5,0,805),(435,7,1,97),(435,7,0,103),(435,1,1,1959),(435,1,0,553),
    (436,3,1,117),(436,3,0,1491),(436,5,1,1539),(436,5,0,653),(436,7,1,249),(436,7,0,1023),(436,1,1,87),(436,1,0,561),
    (437,3,1,93),(437,3,0,1467),(437,5,1,1779),(437,5,0,1885),(437,7,1,1489),(437,7,0,295),(437,1,1,1863),
    (437,1,0,337),(438,3,1,1181),(438,3,0,2715),(438,5,1,563),(438,5,0,117),(438,7,1,417),(438,7,0,1031),
    (438,1,1,807),(438,1,0,249),(439,3,1,549),(439,3,0,1507),(439,5,1,1027),(439,5,0,213),(439,7,1,169),(439,7,0,1183),
    (439,1,1,151),(439,1,0,25),(440,3,1,173),(440,3,0,3443),(440,5,1,2747),(440,5,0,101),(440,7,1,33),(440,7,0,543),
    (440,1,1,1287),(440,1,0,2753),(441,3,1,1189),(441,3,0,187),(441,5,1,555),(441,5,0,853),(441,7,1,361),
    (441,7,0,3655),(441,1,1,559),(441,1,0,897),(442,3,1,2813),(442,3,0,227),(442,5,1,995),(442,5,0,509),(442,7,1,2481),
    (442,7,0,767),(442,1,1,5351),(442,1,0,257),(443,3,1,685),(443,3,0,723),(443,5,1,819),(443,5,0,189),(443,7,1,897),
    (443,7,0,559),(443,1,1,6991),(443,1,0,609),(444,3,1,173),(444,3,0,1955),(444,5,1,675),(444,5,0,53),(444,7,1,17),
    (444,7,0,743),(444,1,1,719),(444,1,0,785),(445,3,1,501),(445,3,0,267),(445,5,1,195),(445,5,0,1405),(445,7,1,2673),
    (445,7,0,631),(445,1,1,1095),(445,1,0,913),(446,3,1,77),(446,3,0,227),(446,5,1,611),(446,5,0,269),(446,7,1,393),
    (446,7,0,95),(446,1,1,2351),(446,1,0,41),(447,3,1,325),(447,3,0,435),(447,5,1,2107),(447,5,0,3637),(447,7,1,441),
    (447,7,0,2527),(447,1,1,1279),(447,1,0,33),(448,3,1,1053),(448,3,0,99),(448,5,1,203),(448,5,0,1341),(448,7,1,825),
    (448,7,0,575),(448,1,1,207),(448,1,0,3185),(449,3,1,373),(449,3,0,211),(449,5,1,619),(449,5,0,597),(449,7,1,241),
    (449,7,0,703),(449,1,1,559),(449,1,0,721),(450,3,1,501),(450,3,0,459),(450,5,1,1083),(450,5,0,869),(450,7,1,1265),
    (450,7,0,1271),(450,1,1,1815),(450,1,0,1289),(451,3,1,2245),(451,3,0,1107),(451,5,1,2811),(451,5,0,213),
    (451,7,1,4737),(451,7,0,487),(451,1,1,2239),(451,1,0,225),(452,3,1,2229),(452,3,0,563),(452,5,1,3),(452,5,0,165),
    (452,7,1,2465),(452,7,0,23),(452,1,1,183),(452,1,0,3065),(453,3,1,285),(453,3,0,3651),(453,5,1,3579),
    (453,5,0,37),(453,7,1,1153),(453,7,0,807),(453,1,1,975),(453,1,0,561),(454,3,1,461),(454,3,0,5931),(454,5,1,155),
    (454,5,0,165),(454,7,1,57),(454,7,0,791),(454,1,1,63),(454,1,0,89),(455,3,1,717),(455,3,0,1003),(455,5,1,2467),
    (455,5,0,1677),(455,7,1,217),(455,7,0,375),(455,1,1,1111),(455,1,0,433),(456,3,1,2037),(456,3,0,1595),
    (456,5,1,627),(456,5,0,3725),(456,7,1,2145),(456,7,0,791),(456,1,1,903),(456,1,0,105),(457,3,1,349),(457,3,0,243),
    (457,5,1,2115),(457,5,0,21),(457,7,1,273),(457,7,0,375),(457,1,1,1975),(457,1,0,1537),(458,3,1,1581),
    (458,3,0,1179),(458,5,1,2595),(458,5,0,5565),(458,7,1,57),(458,7,0,519),(458,1,1,1703),(458,1,0,2561),
    (459,3,1,549),(459,3,0,603),(459,5,1,2835),(459,5,0,2877),(459,7,1,2025),(459,7,0,127),(459,1,1,1239),
    (459,1,0,1729),(460,3,1,77),(460,3,0,371),(460,5,1,147),(460,5,0,101),(460,7,1,113),(460,7,0,959),(460,1,1,959),
    (460,1,0,585),(461,3,1,3949),(461,3,0,1563),(461,5,1,1563),(461,5,0,2037),(461,7,1,649),(461,7,0,1911),
    (461,1,1,1071),(461,1,0,1257),(462,3,1,1997),(462,3,0,2115),(462,5,1,195),(462,5,0,1037),(462,7,1,513),
    (462,7,0,1247),(462,1,1,1631),(462,1,0,321),(463,3,1,157),(463,3,0,1003),(463,5,1,1315),(463,5,0,2613),
    (463,7,1,441),(463,7,0,567),(463,1,1,3127),(463,1,0,1065),(464,3,1,437),(464,3,0,2451),(464,5,1,1275),
    (464,5,0,1253),(464,7,1,1529),(464,7,0,479),(464,1,1,495),(464,1,0,81),(465,3,1,1125),(465,3,0,1995),
    (465,5,1,819),(465,5,0,2581),(465,7,1,3273),(465,7,0,3903),(465,1,1,2751),(465,1,0,841),(466,3,1,813),
    (466,3,0,1571),(466,5,1,3027),(466,5,0,29),(466,7,1,945),(466,7,0,1271),(466,1,1,1287),(466,1,0,585),
    (467,3,1,1765),(467,3,0,499),(467,5,1,555),(467,5,0,1149),(467,7,1,721),(467,7,0,423),(467,1,1,511),(467,1,0,2505),
    (468,3,1,485),(468,3,0,683),(468,5,1,803),(468,5,0,2813),(468,7,1,17),(468,7,0,1023),(468,1,1,167),(468,1,0,329),
    (469,3,1,2373),(469,3,0,1363),(469,5,1,283),(469,5,0,765),(469,7,1,1065),(469,7,0,2847),(469,1,1,775),
    (469,1,0,2025),(470,3,1,1325),(470,3,0,4875),(470,5,1,35),(470,5,0,2757),(470,7,1,945),(470,7,0,879),
    (470,1,1,215),(470,1,0,1329),(471,3,1,3741),(471,3,0,99),(471,5,1,147),(471,5,0,4165),(471,7,1,2617),
    (471,7,0,375),(471,1,1,1287),(471,1,0,937),(472,3,1,1845),(472,3,0,659),(472,5,1,539),(472,5,0,2445),
    (472,7,1,209),(472,7,0,2415),(472,1,1,3927),(472,1,0,1041),(473,3,1,589),(473,3,0,723),(473,5,1,579),
    (473,5,0,445),(473,7,1,1129),(473,7,0,2335),(473,1,1,3631),(473,1,0,1185),(474,3,1,5261),(474,3,0,1491),
    (474,5,1,795),(474,5,0,149),(474,7,1,1073),(474,7,0,327),(474,1,1,135),(474,1,0,929),(475,3,1,1677),(475,3,0,1683),
    (475,5,1,379),(475,5,0,309),(475,7,1,129),(475,7,0,1383),(475,1,1,3351),(475,1,0,1809),(476,3,1,2709),
    (476,3,0,1235),(476,5,1,155),(476,5,0,3021),(476,7,1,153),(476,7,0,2919),(476,1,1,2903),(476,1,0,1593),
    (477,3,1,2533),(477,3,0,1723),(477,5,1,123),(477,5,0,397),(477,7,1,313),(477,7,0,223),(477,1,1,4599),
    (477,1,0,697),(478,3,1,341),(478,3,0,315),(478,5,1,755),(478,5,0,4509),(478,7,1,1593),(478,7,0,695),(478,1,1,95),
    (478,1,0,1257),(479,3,1,877),(479,3,0,867),(479,5,1,2059),(479,5,0,1477),(479,7,1,537),(479,7,0,583),
    (479,1,1,2511),(479,1,0,2257),(480,3,1,797),(480,3,0,1539),(480,5,1,1763),(480,5,0,221),(480,7,1,873),
    (480,7,0,519),(480,1,1,47),(480,1,0,1881),(481,3,1,349),(481,3,0,891),(481,5,1,411),(481,5,0,165),(481,7,1,273),
    (481,7,0,3615),(481,1,1,2271),(481,1,0,345),(482,3,1,1197),(482,3,0,1787),(482,5,1,275),(482,5,0,237),
    (482,7,1,945),(482,7,0,1031),(482,1,1,815),(482,1,0,65),(483,3,1,301),(483,3,0,475),(483,5,1,2019),(483,5,0,589),
    (483,7,1,345),(483,7,0,783),(483,1,1,759),(483,1,0,1345),(484,3,1,117),(484,3,0,2331),(484,5,1,1179),
    (484,5,0,1101),(484,7,1,465),(484,7,0,1319),(484,1,1,39),(484,1,0,329),(485,3,1,5509),(485,3,0,1243),
    (485,5,1,1723),(485,5,0,333),(485,7,1,1569),(485,7,0,1311),(485,1,1,1399),(485,1,0,4425),(486,3,1,1973),
    (486,3,0,1995),(486,5,1,587),(486,5,0,165),(486,7,1,2681),(486,7,0,1247),(486,1,1,143),(486,1,0,2121),
    (487,3,1,1189),(487,3,0,819),(487,5,1,339),(487,5,0,613),(487,7,1,57),(487,7,0,207),(487,1,1,3055),(487,1,0,345),
    (488,3,1,1085),(488,3,0,443),(488,5,1,779),(488,5,0,749),(488,7,1,17),(488,7,0,519),(488,1,1,855),(488,1,0,1161),
    (489,3,1,21),(489,3,0,907),(489,5,1,115),(489,5,0,853),(489,7,1,345),(489,7,0,1287),(489,1,1,279),(489,1,0,777),
    (490,3,1,917),(490,3,0,179),(490,5,1,2115),(490,5,0,837),(490,7,1,1457),(490,7,0,2415),(490,1,1,1383),
    (490,1,0,345),(491,3,1,3957),(491,3,0,1507),(491,5,1,75),(491,5,0,2229),(491,7,1,97),(491,7,0,655),(491,1,1,1119),
    (491,1,0,1369),(492,3,1,173),(492,3,0,1443),(492,5,1,1715),(492,5,0,813),(492,7,1,129),(492,7,0,2279),
    (492,1,1,2247),(492,1,0,1521),(493,3,1,469),(493,3,0,1347),(493,5,1,1923),(493,5,0,21),(493,7,1,433),
    (493,7,0,247),(493,1,1,439),(493,1,0,3193),(494,3,1,125),(494,3,0,2939),(494,5,1,3795),(494,5,0,549),
    (494,7,1,657),(494,7,0,3527),(494,1,1,887),(494,1,0,5729),(495,3,1,909),(495,3,0,603),(495,5,1,1515),
    (495,5,0,1365),(495,7,1,3489),(495,7,0,375),(495,1,1,31),(495,1,0,1825),(496,3,1,1133),(496,3,0,51),(496,5,1,5459),
    (496,5,0,1533),(496,7,1,257),(496,7,0,1503),(496,1,1,1287),(496,1,0,1625),(497,3,1,1669),(497,3,0,6883),
    (497,5,1,1291),(497,5,0,861),(497,7,1,1441),(497,7,0,583),(497,1,1,1951),(497,1,0,6345),(498,3,1,1085),
    (498,3,0,2459),(498,5,1,563),(498,5,0,245),(498,7,1,2385),(498,7,0,159),(498,1,1,1943),(498,1,0,1185),
    (499,3,1,3021),(499,3,0,627),(499,5,1,1179),(499,5,0,1837),(499,7,1,1305),(499,7,0,375),(499,1,1,151),
    (499,1,0,409),(500,3,1,1485),(500,3,0,1059),(500,5,1,2315),(500,5,0,3461),(500,7,1,1769),(500,7,0,855),
    (500,1,1,863),(500,1,0,161),(501,3,1,45),(501,3,0,1075),(501,5,1,91),(501,5,0,597),(501,7,1,1441),(501,7,0,55),
    (501,1,1,3855),(501,1,0,321),(502,3,1,4341),(502,3,0,555),(502,5,1,1083),(502,5,0,3677),(502,7,1,3497),
    (502,7,0,519),(502,1,1,671),(502,1,0,641),(503,3,1,829),(503,3,0,339),(503,5,1,91),(503,5,0,2533),(503,7,1,1345),
    (503,7,0,135),(503,1,1,1095),(503,1,0,49),(504,3,1,2853),(504,3,0,555),(504,5,1,1299),(504,5,0,165),(504,7,1,1713),
    (504,7,0,951),(504,1,1,503),(504,1,0,1265),(505,3,1,1069),(505,3,0,715),(505,5,1,91),(505,5,0,133),(505,7,1,1225),
    (505,7,0,1951),(505,1,1,103),(505,1,0,625),(506,3,1,45),(506,3,0,51),(506,5,1,243),(506,5,0,461),(506,7,1,1233),
    (506,7,0,2799),(506,1,1,455),(506,1,0,377),(507,3,1,1909),(507,3,0,1467),(507,5,1,627),(507,5,0,1909),
    (507,7,1,265),(507,7,0,559),(507,1,1,951),(507,1,0,2737),(508,3,1,885),(508,3,0,2235),(508,5,1,243),(508,5,0,4509),
    (508,7,1,873),(508,7,0,351),(508,1,1,999),(508,1,0,1209),(509,3,1,741),(509,3,0,1035),(509,5,1,4683),
    (509,5,0,2541),(509,7,1,2145),(509,7,0,15),(509,1,1,1335),(509,1,0,1233),(510,3,1,357),(510,3,0,35),(510,5,1,75),
    (510,5,0,1797),(510,7,1,1857),(510,7,0,167),(510,1,1,2655),(510,1,0,281),(511,3,1,1261),(511,3,0,915),
    (511,5,1,187),(511,5,0,37),(511,7,1,481),(511,7,0,15),(511,1,1,1191),(511,1,0,649),(512,3,1,629),(512,3,0,1299),
    (512,5,1,875),(512,5,0,4973),(512,7,1,569),(512,7,0,111),(512,1,1,975),(512,1,0,809),(513,3,1,445),(513,3,0,75),
    (513,5,1,1483),(513,5,0,285),(513,7,1,3409),(513,7,0,727),(513,1,1,879),(513,1,0,145),(514,3,1,1197),
    (514,3,0,659),(514,5,1,2115),(514,5,0,261),(514,7,1,1145),(514,7,0,159),(514,1,1,767),(514,1,0,1041),
    (515,3,1,789),(515,3,0,603),(515,5,1,771),(515,5,0,885),(515,7,1,225),(515,7,0,255),(515,1,1,3999),(515,1,0,169),
    (516,3,1,773),(516,3,0,3011),(516,5,1,723),(516,5,0,2981),(516,7,1,689),(516,7,0,15),(516,1,1,4295),(516,1,0,561),
    (517,3,1,493),(517,3,0,1411),(517,5,1,1491),(517,5,0,3733),(517,7,1,489),(517,7,0,303),(517,1,1,759),
    (517,1,0,121),(518,3,1,917),(518,3,0,611),(518,5,1,1331),(518,5,0,357),(518,7,1,2465),(518,7,0,1695),
    (518,1,1,1151),(518,1,0,905),(519,3,1,2077),(519,3,0,99),(519,5,1,91),(519,5,0,37),(519,7,1,1017),(519,7,0,1479),
    (519,1,1,1519),(519,1,0,57),(520,3,1,1125),(520,3,0,2243),(520,5,1,539),(520,5,0,2045),(520,7,1,777),
    (520,7,0,1263),(520,1,1,383),(520,1,0,393),(521,3,1,1749),(521,3,0,4075),(521,5,1,115),(521,5,0,1213),
    (521,7,1,1),(521,7,0,783),(521,1,1,271),(521,1,0,513),(522,3,1,117),(522,3,0,2379),(522,5,1,915),(522,5,0,2309),
    (522,7,1,4233),(522,7,0,887),(522,1,1,1887),(522,1,0,2001),(523,3,1,2821),(523,3,0,1579),(523,5,1,1267),
    (523,5,0,4029),(523,7,1,1417),(523,7,0,4207),(523,1,1,1879),(523,1,0,345),(524,3,1,2445),(524,3,0,2019),
    (524,5,1,947),(524,5,0,1493),(524,7,1,465),(524,7,0,375),(524,1,1,927),(524,1,0,1625),(525,3,1,2013),
    (525,3,0,427),(525,5,1,363),(525,5,0,117),(525,7,1,625),(525,7,0,7287),(525,1,1,583),(525,1,0,2457),(526,3,1,5741),
    (526,3,0,731),(526,5,1,363),(526,5,0,981),(526,7,1,497),(526,7,0,1887),(526,1,1,623),(526,1,0,1281),(527,3,1,1101),
    (527,3,0,2947),(527,5,1,4179),(527,5,0,813),(527,7,1,1017),(527,7,0,1647),(527,1,1,1311),(527,1,0,697),
    (528,3,1,189),(528,3,0,755),(528,5,1,683),(528,5,0,509),(528,7,1,65),(528,7,0,1703),(528,1,1,303),(528,1,0,249),
    (529,3,1,309),(529,3,0,555),(529,5,1,619),(529,5,0,381),(529,7,1,1041),(529,7,0,1311),(529,1,1,31),(529,1,0,1153),
    (530,3,1,1413),(530,3,0,2955),(530,5,1,3291),(530,5,0,69),(530,7,1,1017),(530,7,0,567),(530,1,1,1575),
    (530,1,0,4409),
];
