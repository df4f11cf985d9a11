From a0ca687dfa9aeb582203c8b3281cecfd1e83474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 01/73] fix: log scenario init exception text as data, not as
 format pattern

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4252cf2..deee20c 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -439,7 +439,7 @@ static int InitScenario()
     }
     catch (const std::exception &e)
     {
-        LOG_ERROR(e.what());
+        LOG_ERROR("{}", e.what());
         resetScenario();
         return -1;
     }
-- 
2.43.0


From 1fcd37f56d1cc37720d7f19a87fd76c0c6d61002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 02/73] fix: placeholder count in message for invalid
 use_viewer argument

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index deee20c..fae8b09 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -639,7 +639,7 @@ extern "C"
 
             if (use_viewer & ~(0xf))  // check for invalid bits 0xf == 1+2+4+8
             {
-                LOG_ERROR("Unexpected use_viewer value: {}. Valid range: (0, {}) / (0x0, 0x{}) ({}, {})", use_viewer, 0, 0xf, 0xf);
+                LOG_ERROR("Unexpected use_viewer value: {}. Valid range: (0, {}) / (0x0, 0x{:x})", use_viewer, 0xf, 0xf);
             }
         }
 
-- 
2.43.0


From 415c5129d8068a32ae30e40a471c6728ab668b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 03/73] fix: SE_LogMessage logs the message verbatim, not as
 format pattern

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index fae8b09..aa4a72f 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1924,7 +1924,7 @@ extern "C"
 
     SE_DLL_API void SE_LogMessage(const char *message)
     {
-        LOG_INFO(message);
+        LOG_INFO("{}", message);
     }
 
     SE_DLL_API void SE_CloseLogFile()
-- 
2.43.0


From f3d3ed0c0ac4a6dc775d9cc6ab6d1a562f3824d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 04/73] fix: escape brace in expression syntax error message

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 6b487e9..164c103 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -466,7 +466,7 @@ std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute
                 }
                 else
                 {
-                    LOG_ERROR_AND_QUIT("Expression syntax error: {}, missing end '}'", attr.value());
+                    LOG_ERROR_AND_QUIT("Expression syntax error: {}, missing end '}}'", attr.value());
                 }
             }
             else
-- 
2.43.0


From 8da417de6fd8fbbc304fb02f6a10f992f5ecb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 05/73] fix: missing argument in coordinate system error
 messages

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cd9c1df..c7192e1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -798,7 +798,7 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
 
     if (cs != CoordinateSystem::CS_LANE && cs != CoordinateSystem::CS_ROAD)
     {
-        LOG_ERROR("Unexpected coordinateSystem ({}). {} or {} expected.", CoordinateSystem::CS_LANE, CoordinateSystem::CS_ROAD);
+        LOG_ERROR("Unexpected coordinateSystem ({}). {} or {} expected.", cs, CoordinateSystem::CS_LANE, CoordinateSystem::CS_ROAD);
         return -1;
     }
 
@@ -916,7 +916,7 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
 
     if (cs != CoordinateSystem::CS_LANE && cs != CoordinateSystem::CS_ROAD)
     {
-        LOG_ERROR("Unexpected coordinateSystem ({}). {} or {} expected.", CoordinateSystem::CS_LANE, CoordinateSystem::CS_ROAD);
+        LOG_ERROR("Unexpected coordinateSystem ({}). {} or {} expected.", cs, CoordinateSystem::CS_LANE, CoordinateSystem::CS_ROAD);
         return -1;
     }
 
-- 
2.43.0


From 1e2b00503b97c68bdb55f300bb2f7f9818adaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 06/73] fix: missing argument in PPM pixel format error message

---
 EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
index 9ee53e6..c4f4942 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
@@ -2912,7 +2912,7 @@ int SE_WritePPM(const char* filename, int width, int height, const unsigned char
 
     if (pixelFormat != static_cast<int>(PixelFormat::BGR) && pixelFormat != static_cast<int>(PixelFormat::RGB))
     {
-        LOG_ERROR("PPM PixelFormat {} not supported yet, only 0x{} (RGB) and 0x{} (BGR)", PixelFormat::RGB, PixelFormat::BGR);
+        LOG_ERROR("PPM PixelFormat {} not supported yet, only 0x{} (RGB) and 0x{} (BGR)", pixelFormat, PixelFormat::RGB, PixelFormat::BGR);
         return -3;
     }
 
-- 
2.43.0


From d1cb5f0e2a47c81881fc2d59b7ab7d1261b93dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 07/73] fix: missing argument in direct junction error message

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 23ceb30..dc91093 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6629,7 +6629,7 @@ int OpenDrive::CheckJunctionConnection(Junction* junction, Connection* connectio
                      connection->GetContactPoint() == ContactPointType::CONTACT_POINT_END &&
                      link[i]->GetContactPointType() == ContactPointType::CONTACT_POINT_JUNCTION && link[i]->GetElementId() != junction->GetId()))
                 {
-                    LOG_ERROR("Expected direct junction linkedRoad to connect back to junction id {}, found id {}", link[i]->GetElementId());
+                    LOG_ERROR("Expected direct junction linkedRoad to connect back to junction id {}, found id {}", junction->GetId(), link[i]->GetElementId());
                     return -1;
                 }
 
-- 
2.43.0


From d0184ee5f869770a24bb0489396b959174cad979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 08/73] fix: format of custom light source message applied to
 strings

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index a758284..1c50712 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -1049,7 +1049,7 @@ int ScenarioPlayer::InitViewer()
             }
             else
             {
-                LOG_INFO("Max nr custom lights ({}) reached. Ignoring ({:.2f}, {:.2f}, {:.2f}, {:.2f})",
+                LOG_INFO("Max nr custom lights ({}) reached. Ignoring ({}, {}, {}, {})",
                          lightCounter,
                          splitted[0],
                          splitted[1],
-- 
2.43.0


From a797bba72bbfe02dbdf3aa500c1162ea7b4b0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 09/73] fix: log player init exception text as data, not as
 format pattern

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index 1c50712..5dd511a 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -1866,7 +1866,7 @@ int ScenarioPlayer::Init()
     }
     catch (std::exception& e)
     {
-        LOG_ERROR(std::string("Exception: ").append(e.what()));
+        LOG_ERROR("Exception: {}", e.what());
         return -1;
     }
 
-- 
2.43.0


From 4b5f8f56b8474f3eec7dd40f435b7c5d8401ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 10/73] fix: log config parsing error as data, not as format
 pattern

---
 EnvironmentSimulator/Modules/CommonMini/Config.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/Config.cpp b/EnvironmentSimulator/Modules/CommonMini/Config.cpp
index 6a2d886..3fd8205 100644
--- a/EnvironmentSimulator/Modules/CommonMini/Config.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/Config.cpp
@@ -97,7 +97,7 @@ namespace esmini::common
         allConfigs = parser.Parse();
         if (parser.IsFaulty())
         {
-            LOG_ERROR_AND_QUIT(parser.GetParsingErrorMsg());
+            LOG_ERROR_AND_QUIT("{}", parser.GetParsingErrorMsg());
         }
         // there is a possibility that the config file path is already set in options, maybe through the api call
         // so we need to parse those config files as well. Since, order of appearance matters, so we will reverse iterate
@@ -109,7 +109,7 @@ namespace esmini::common
             auto                         configs = configParser.Parse();
             if (configParser.IsFaulty())
             {
-                LOG_ERROR_AND_QUIT(configParser.GetParsingErrorMsg());
+                LOG_ERROR_AND_QUIT("{}", configParser.GetParsingErrorMsg());
             }
             allConfigs.insert(allConfigs.end(), std::make_move_iterator(configs.begin()), std::make_move_iterator(configs.end()));
         }
@@ -125,7 +125,7 @@ namespace esmini::common
                 auto                         configs = configParser.Parse();
                 if (configParser.IsFaulty())
                 {
-                    LOG_ERROR_AND_QUIT(configParser.GetParsingErrorMsg());
+                    LOG_ERROR_AND_QUIT("{}", configParser.GetParsingErrorMsg());
                 }
 
                 // we need to wipe out the config file path from the arguments, so that they wont be consumed again
-- 
2.43.0


From 00da18d2b303a5372642622b66c344922eb81d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 11/73] fix: log catalog load error as data, not as format
 pattern

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index cf2667f..2e3622b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -315,7 +315,7 @@ Catalog *ScenarioReader::LoadCatalog(std::string name)
     }
     else if (!catalog_doc.load_file(file_path.c_str()))
     {
-        LOG_ERROR_AND_QUIT("Couldn't load catalog file: " + name + ". " + result.description());
+        LOG_ERROR_AND_QUIT("Couldn't load catalog file: {}. {}", name, result.description());
     }
 
     pugi::xml_node osc_node_ = catalog_doc.child("OpenSCENARIO");
-- 
2.43.0


From 4128c5f9720d2bff1694d0cd292a373263dc7a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 12/73] fix: SE_GetObjectNumberOfWheels crashed when no
 scenario is loaded

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index aa4a72f..ea19af9 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2155,6 +2155,11 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectNumberOfWheels(int object_id)
     {
+        if (player == nullptr)
+        {
+            return -1;
+        }
+
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
         if (obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
-- 
2.43.0


From 8ce87acbea445bb336c4df70f439dc7a0fc68a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 13/73] fix: SE_GetObjectWheelData crashed when no scenario is
 loaded

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index ea19af9..4629a3a 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2172,6 +2172,11 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectWheelData(int object_id, int wheel_index, SE_WheelData *wheeldata)
     {
+        if (player == nullptr)
+        {
+            return -1;
+        }
+
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
         if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
-- 
2.43.0


From 1f284829909010082aebf960ea54c09b9589c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 14/73] fix: SE_GetObjectWheelData reported success for wheel
 index out of range

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4629a3a..a5ec3c8 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2179,7 +2179,8 @@ extern "C"
 
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
-        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE &&
+            static_cast<unsigned int>(wheel_index) < static_cast<Vehicle *>(obj)->GetWheelData().size())
         {
             copyWheelDataFromScenarioObject(wheeldata, static_cast<Vehicle &>(*obj), static_cast<unsigned int>(wheel_index));
             return 0;
-- 
2.43.0


From d0798b86a9e83cc3e8f16adb3dec2bb9f5dda465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 15/73] fix: SE_RegisterObjectCallback crashed when no scenario
 is loaded

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index a5ec3c8..abd8cc9 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2457,6 +2457,11 @@ extern "C"
 
     SE_DLL_API void SE_RegisterObjectCallback(int object_id, void (*fnPtr)(SE_ScenarioObjectState *, void *), void *user_data)
     {
+        if (player == nullptr)
+        {
+            return;
+        }
+
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-- 
2.43.0


From e51ae2bdaed6816e5997d5e5581304a06bdf5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 16/73] fix: road sign validity queries crashed on sign index
 out of range

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index abd8cc9..28043db 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2542,7 +2542,10 @@ extern "C"
             if (road != nullptr)
             {
                 roadmanager::Signal *s = road->GetSignal(index);
-                return static_cast<unsigned int>(s->validity_.size());
+                if (s != nullptr)
+                {
+                    return static_cast<unsigned int>(s->validity_.size());
+                }
             }
         }
 
@@ -2557,7 +2560,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal *s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
-- 
2.43.0


From e406e03c397f6f207af2dabf9551767acd542f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 17/73] fix: SE_GetObjectLightState read out of bounds for
 unknown light type

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 28043db..857ea37 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1475,7 +1475,7 @@ extern "C"
 
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
-        if (obj == nullptr)
+        if (obj == nullptr || static_cast<size_t>(light_type) >= static_cast<size_t>(Object::VehicleLightType::VEHICLE_LIGHT_SIZE))
         {
             return -1;
         }
-- 
2.43.0


From 9103c5d7de4ca1526d5f79a9e2b6fa2814f058e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 18/73] fix: SE_FetchImage reported success when no scenario is
 loaded

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 857ea37..c64fe17 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2858,13 +2858,12 @@ extern "C"
             image->pixelSize   = offScrImg->pixelSize;
             image->pixelFormat = offScrImg->pixelFormat;
             image->data        = offScrImg->data;
+            return 0;
         }
-
-        return 0;
 #else
         (void)image;
-        return -1;
 #endif
+        return -1;
     }
 
     SE_DLL_API void SE_RegisterImageCallback(void (*fnPtr)(SE_Image *, void *), void *user_data)
-- 
2.43.0


From a82fb218f49ca921176165d4e716998df3a70625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 19/73] fix: SE_GetRoutePoint crashed on waypoint outside
 driving lanes

---
 .../Libraries/esminiLib/esminiLib.cpp                | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index c64fe17..1995e76 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -3123,6 +3123,15 @@ extern "C"
         }
 
         roadmanager::Road *road = player->odr_manager->GetRoadById(route->all_waypoints_[route_index].GetTrackId());
+        roadmanager::Lane *lane =
+            road == nullptr
+                ? nullptr
+                : road->GetDrivingLaneById(route->all_waypoints_[route_index].GetS(), route->all_waypoints_[route_index].GetLaneId());
+        if (lane == nullptr)
+        {
+            LOG_ERROR("Route waypoint index {} is not located in any driving lane", route_index);
+            return -1;
+        }
 
         routeinfo->x          = route->all_waypoints_[route_index].GetX();
         routeinfo->y          = route->all_waypoints_[route_index].GetY();
@@ -3131,8 +3140,7 @@ extern "C"
         routeinfo->roadId     = route->all_waypoints_[route_index].GetTrackId();
         routeinfo->junctionId = route->all_waypoints_[route_index].GetJunctionId();
         routeinfo->laneId     = route->all_waypoints_[route_index].GetLaneId();
-        routeinfo->osiLaneId  = static_cast<int>(
-            road->GetDrivingLaneById(route->all_waypoints_[route_index].GetS(), route->all_waypoints_[route_index].GetLaneId())->GetGlobalId());
+        routeinfo->osiLaneId  = static_cast<int>(lane->GetGlobalId());
         routeinfo->laneOffset = route->all_waypoints_[route_index].GetOffset();
         routeinfo->s          = route->all_waypoints_[route_index].GetS();
         routeinfo->t          = route->all_waypoints_[route_index].GetT();
-- 
2.43.0


From 2a44d2ba4782e3a5a73e765083e939dd1d3a10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 20/73] fix: SE_DeleteObject modified the controller list while
 iterating over it

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 1995e76..47cd204 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1185,7 +1185,8 @@ extern "C"
 
         if (player != nullptr)
         {
-            for (auto &ctrl : obj->controllers_)
+            const auto controllers = obj->controllers_;  // copy, since the list is modified by the loop
+            for (auto &ctrl : controllers)
             {
                 obj->UnassignController(ctrl);
                 ctrl->UnlinkObject();
-- 
2.43.0


From ae38137d45ca480bffa88bcc6ae952b46d4a6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 21/73] fix: SE_SetSnapLaneTypes and SE_SetLockOnLane refused
 valid object ids >= number of objects

---
 .../Libraries/esminiLib/esminiLib.cpp         | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 47cd204..53fb111 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1378,15 +1378,8 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetSnapLaneTypes(laneTypes);
-            obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetSnapLaneTypes(laneTypes);
+        obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
 
         return 0;
     }
@@ -1399,14 +1392,7 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetLockOnLane(mode);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetLockOnLane(mode);
 
         return 0;
     }
-- 
2.43.0


From 14163f4d0e9cd991629e7c04a285f9b46baa08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 22/73] fix: SE_ReportObjectLateralLanePosition ignored the
 lane id

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 53fb111..50bf2a6 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1284,14 +1284,13 @@ extern "C"
 
     SE_DLL_API int SE_ReportObjectLateralLanePosition(int object_id, int laneId, double laneOffset)
     {
-        (void)laneId;
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
             return -1;
         }
 
-        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), obj->pos_.GetLaneId(), obj->pos_.GetS(), laneOffset);
+        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), laneId, obj->pos_.GetS(), laneOffset);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
 
         return 0;
-- 
2.43.0


From c755ff64f09e4a5226b584dcbabfba8658a6b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 23/73] fix: object callbacks were not cleared between
 scenarios

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 50bf2a6..2717b0b 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -82,6 +82,7 @@ static void resetScenario(void)
     // Reset (global) callbacks
     OSCCondition::conditionCallback        = nullptr;
     StoryBoardElement::stateChangeCallback = nullptr;
+    objCallback.clear();
 
     time_stamp = 0;
 }
-- 
2.43.0


From fbc3a17e5d506bbf5904cd4c43f51ca7009cc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 24/73] fix: SE_Init did not release a previous scenario

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 2717b0b..e75abb8 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -689,6 +689,11 @@ extern "C"
 
     SE_DLL_API int SE_Init(const char *oscFilename, int disable_ctrls, int use_viewer, int threads, int record)
     {
+        if (player != nullptr)
+        {
+            resetScenario();
+        }
+
 #ifndef _USE_OSG
         if (use_viewer)
         {
-- 
2.43.0


From 80fdef6d84b9f0a9075ef619d5b9bd4e1927f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:37 +0000
Subject: [PATCH 25/73] fix: object callbacks were invoked with the user data
 of other registrations

---
 .../Libraries/esminiLib/esminiLib.cpp           | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index e75abb8..0835671 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2436,13 +2436,14 @@ extern "C"
 
     void objCallbackFn(scenarioengine::Object *obj, void *my_data)
     {
+        (void)my_data;
         for (size_t i = 0; i < objCallback.size(); i++)
         {
             if (objCallback[i].id == obj->GetId())
             {
                 SE_ScenarioObjectState se_state;
                 copyStateFromScenarioObject(&se_state, *obj);
-                objCallback[i].func(&se_state, my_data);
+                objCallback[i].func(&se_state, objCallback[i].data);
             }
         }
     }
@@ -2457,9 +2458,19 @@ extern "C"
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-        cb.data = nullptr;
+        cb.data = user_data;
+
+        bool registered = false;
+        for (size_t i = 0; i < objCallback.size(); i++)
+        {
+            registered |= objCallback[i].id == object_id;
+        }
+
         objCallback.push_back(cb);
-        player->RegisterObjCallback(object_id, objCallbackFn, user_data);
+        if (!registered)
+        {
+            player->RegisterObjCallback(object_id, objCallbackFn, nullptr);
+        }
     }
 
     SE_DLL_API void SE_RegisterConditionCallback(void (*fnPtr)(const char *name, double timestamp))
-- 
2.43.0


From b16e5d3954577f069217475381a77eb36ec1715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:45 +0000
Subject: [PATCH 26/73] fix: SE_GetParameterName and SE_GetVariableName quit on
 index out of range

---
 .../Libraries/esminiLib/esminiLib.cpp          | 18 ++++++++++++++++--
 .../ScenarioEngine/SourceFiles/Parameters.cpp  |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 0835671..a7029a5 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -805,7 +805,14 @@ extern "C"
             return 0;
         }
 
-        returnString = player->GetParameterName(index, (OSCParameterDeclarations::ParameterType *)type);
+        const char *name = player->GetParameterName(index, (OSCParameterDeclarations::ParameterType *)type);
+
+        if (name == nullptr)
+        {
+            return 0;
+        }
+
+        returnString = name;
 
         return returnString.c_str();
     }
@@ -829,7 +836,14 @@ extern "C"
             return 0;
         }
 
-        returnString = player->GetVariableName(index, (OSCParameterDeclarations::ParameterType *)type);
+        const char *name = player->GetVariableName(index, (OSCParameterDeclarations::ParameterType *)type);
+
+        if (name == nullptr)
+        {
+            return 0;
+        }
+
+        returnString = name;
 
         return returnString.c_str();
     }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 164c103..1fa73b1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -111,7 +111,7 @@ const char* Parameters::GetParameterName(int index, OSCParameterDeclarations::Pa
 {
     if (index < 0 || static_cast<unsigned int>(index) >= parameterDeclarations_.Parameter.size())
     {
-        LOG_ERROR_AND_QUIT("index {} out of range [0:{}]", index, parameterDeclarations_.Parameter.size() - 1);
+        LOG_ERROR("index {} out of range, number of parameters: {}", index, parameterDeclarations_.Parameter.size());
         return 0;
     }
 
-- 
2.43.0


From b2507096c29228fcd8455d7b043a7cebd9d6a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:51 +0000
Subject: [PATCH 27/73] fix: road manager library accessed memory out of bounds
 for negative position handles

---
 .../Libraries/esminiRMLib/esminiRMLib.cpp     | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 1a0d8cd..4dea781 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -465,7 +465,7 @@ extern "C"
 
     RM_DLL_API int RM_SetLanePosition(int handle, id_t roadId, int laneId, double laneOffset, double s, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -506,7 +506,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadPosition(int handle, id_t roadId, double s, double t, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -547,7 +547,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPosition(int handle, double x, double y, double z, double h, double p, double r)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -572,7 +572,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYHPosition(int handle, double x, double y, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -590,7 +590,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYZHPosition(int handle, double x, double y, double z, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -608,7 +608,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPositionMode(int handle, double x, double y, double z, double h, double p, double r, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -648,7 +648,7 @@ extern "C"
 
     RM_DLL_API int RM_SetH(int handle, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -677,7 +677,7 @@ extern "C"
 
     RM_DLL_API int RM_SetHMode(int handle, double h, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -704,7 +704,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadId(int handle, id_t roadId)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -729,7 +729,7 @@ extern "C"
 
     RM_DLL_API int RM_SetS(int handle, double s)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -747,7 +747,7 @@ extern "C"
 
     RM_DLL_API int RM_SetSnapLaneTypes(int handle, int laneTypes)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -766,7 +766,7 @@ extern "C"
 
     RM_DLL_API int RM_PositionMoveForward(int handle, double dist, double junctionSelectorAngle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -786,7 +786,7 @@ extern "C"
 
     RM_DLL_API int RM_GetPositionData(int handle, RM_PositionData* data)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -811,7 +811,7 @@ extern "C"
 
     RM_DLL_API int RM_GetLaneInfo(int handle, double lookahead_distance, RM_RoadLaneInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -821,7 +821,7 @@ extern "C"
 
     RM_DLL_API double RM_GetSpeedLimit(int handle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -831,7 +831,7 @@ extern "C"
 
     RM_DLL_API int RM_GetProbeInfo(int handle, double lookahead_distance, RM_RoadProbeInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -919,7 +919,8 @@ extern "C"
 
     RM_DLL_API int RM_SubtractAFromB(int handleA, int handleB, RM_PositionDiff* pos_diff)
     {
-        if (odrManager == nullptr || handleA >= static_cast<int>(position.size()) || handleB >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handleA < 0 || handleA >= static_cast<int>(position.size()) || handleB < 0 ||
+            handleB >= static_cast<int>(position.size()))
         {
             return -1;
         }
-- 
2.43.0


From 59e4624020a01596daf4212804c5a34945aa565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:51 +0000
Subject: [PATCH 28/73] fix: road sign validity queries of road manager library
 crashed on sign index out of range

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 4dea781..e827643 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -1011,7 +1011,10 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(index);
-                return static_cast<int>(s->validity_.size());
+                if (s != nullptr)
+                {
+                    return static_cast<int>(s->validity_.size());
+                }
             }
         }
 
@@ -1026,7 +1029,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
-- 
2.43.0


From f595ffcd365841d2824aa9bb8d2d3858114ffa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:51 +0000
Subject: [PATCH 29/73] fix: RM_InitWithString kept positions of the previous
 road network and skipped locale setting

---
 .../Libraries/esminiRMLib/esminiRMLib.cpp                 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index e827643..9208850 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -130,6 +130,14 @@ extern "C"
 
     RM_DLL_API int RM_InitWithString(const char* odrAsXMLString)
     {
+        if (odrManager)
+        {
+            RM_Close();
+        }
+
+        // Harmonize parsing and printing of floating point numbers. I.e. 1.57e+4 == 15700.0 not 15,700.0 or 1 or 1.57
+        std::setlocale(LC_ALL, "C.UTF-8");
+
         if (!roadmanager::Position::LoadOpenDriveFromXMLString(odrAsXMLString))
         {
             LOG_ERROR("Failed to load ODR {}", odrAsXMLString);
-- 
2.43.0


From 0aa3b583d7d1acc8178007307a53a92c9bc588f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:51 +0000
Subject: [PATCH 30/73] fix: RM_GetOptionValue returned the value of the first
 call for ever

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 9208850..430feef 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -1120,7 +1120,8 @@ extern "C"
         {
             return 0;
         }
-        static std::string val = SE_Env::Inst().GetOptions().GetOptionValue(name);
+        static std::string val;
+        val = SE_Env::Inst().GetOptions().GetOptionValue(name);
         return val.c_str();
     }
 
-- 
2.43.0


From 01efdf8cc26bf7c5f6034a94c6efbe05f1bef6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:51 +0000
Subject: [PATCH 31/73] fix: road id of road sign never populated

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 1 +
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index a7029a5..a02b4d3 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2530,6 +2530,7 @@ extern "C"
                     road_sign->id          = s->GetId();
                     returnString           = s->GetName();
                     road_sign->name        = returnString.c_str();
+                    road_sign->roadId      = static_cast<int>(road_id);
                     road_sign->x           = pos.GetX();
                     road_sign->y           = pos.GetY();
                     road_sign->z           = pos.GetZ();
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 430feef..829a055 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -987,6 +987,7 @@ extern "C"
                 road_sign->id          = s->GetId();
                 returnString           = s->GetName();
                 road_sign->name        = returnString.c_str();
+                road_sign->roadId      = road_id;
                 road_sign->x           = pos.GetX();
                 road_sign->y           = pos.GetY();
                 road_sign->z           = pos.GetZ();
-- 
2.43.0


From 95977d98113413fe8816aae3cf0f3b9d60518aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:51 +0000
Subject: [PATCH 32/73] fix: wheel radius of wheel data never populated

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp          | 1 +
 .../Modules/ScenarioEngine/SourceFiles/Entities.hpp             | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index a02b4d3..8cba647 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -162,6 +162,7 @@ static void copyWheelDataFromScenarioObject(SE_WheelData *wheeldata, const scena
         wheeldata->z                    = wd.z;
         wheeldata->h                    = wd.h;
         wheeldata->p                    = wd.p;
+        wheeldata->wheel_radius         = wd.wheel_radius;
         wheeldata->friction_coefficient = wd.friction_coefficient;
         wheeldata->axle                 = wd.axle;
         wheeldata->index                = wd.index;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
index 69196ae..b9acb1a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
@@ -34,7 +34,7 @@ namespace scenarioengine
         double p = 0.0;  // pitch in global coordinate system
         // double r;                     // roll in global coordinate system
         // double width;                 // median width of the tire
-        double wheel_radius;                // median radius of the wheel measured from the center of the wheel to the outer part of the tire
+        double wheel_radius         = 0.0;  // median radius of the wheel measured from the center of the wheel to the outer part of the tire
         double friction_coefficient = 0.0;  // the value describes the kinetic friction of the tyre's contact point
         double rotation_rate        = 0.0;  // rotation rate of the wheel
         // double rim_radius;  // 	median radius of the rim measured from the center to the outer, visible part of the rim
-- 
2.43.0


From ebecbb44afaa8dd26180ea994950fdb0445844c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:51 +0000
Subject: [PATCH 33/73] fix: trail heading and wheel angle of road info not
 populated for plain look ahead

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 8cba647..9ca53ff 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -252,6 +252,10 @@ static void CopyRoadInfo(SE_RoadInfo *r_data, roadmanager::RoadProbeInfo *s_data
         r_data->road_type    = static_cast<int>(s_data->road_lane_info.road_type);
         r_data->road_rule    = static_cast<int>(s_data->road_lane_info.road_rule);
         r_data->lane_type    = static_cast<int>(s_data->road_lane_info.lane_type);
+
+        // defaults, overridden by trail lookups
+        r_data->trail_heading     = s_data->road_lane_info.heading;
+        r_data->trail_wheel_angle = 0.0;
     }
 }
 
-- 
2.43.0


From c556e2845b859cb9ccdc8e23ab4a77cedc7169f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 34/73] fix: reach position, collision and end of road
 conditions kept the verdict of the previous triggering entity

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 66d483a..4f89976 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -887,6 +887,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             continue;
         }
 
+        result        = false;
         Position* pos = position_->GetRMPos();
         if (pos == nullptr)
         {
@@ -1065,6 +1066,8 @@ bool TrigByCollision::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         if (object_ && object_->IsActive())
         {
             if (trigObj->Collision(object_))
@@ -1201,6 +1204,9 @@ bool TrigByEndOfRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        result            = false;
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsEndOfRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetEndOfRoadTimestamp();
-- 
2.43.0


From 0db4d42630305ee7f92a2245170a0f3abac2cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 35/73] fix: stand still and off road conditions used the
 duration of the previous triggering entity

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 4f89976..f22a322 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -1250,6 +1250,8 @@ bool TrigByStandStill::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsStandStill())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetStandStillTimestamp();
@@ -1291,6 +1293,8 @@ bool TrigByOffRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsOffRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetOffRoadTimestamp();
-- 
2.43.0


From 9f9e0e7364f967ff068b142f4f8d5835d71fc59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 36/73] fix: time headway and time to collision conditions
 ignored undefined values when all entities are required

---
 .../OSCTypeDefs/OSCCondition.cpp              | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index f22a322..b0a8472 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -740,13 +740,14 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive() || (object_ && !object_->IsActive()))
         {
             continue;
         }
 
+        result = false;
+
         if (trigObj->Distance(object_, cs_, relDistType_, freespace_, rel_dist) != 0)
         {
             rel_dist = LARGE_NUMBER;
@@ -769,11 +770,11 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -796,7 +797,6 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive())
         {
@@ -839,6 +839,7 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
             }
         }
 
+        result = false;
         if (ttc_ >= 0.0)
         {
             result = EvaluateRule(ttc_, value_, rule_);
@@ -847,11 +848,11 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
-- 
2.43.0


From ba93c398b1fb9dd9b5629e5d457ea92b17b6ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 37/73] fix: relative clearance condition used findings of the
 previous triggering entity

---
 .../ScenarioEngine/OSCTypeDefs/OSCCondition.cpp        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index b0a8472..f7c1168 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -1624,13 +1624,19 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
         Object*            entityObject = triggering_entities_.entity_[i].object_;
         roadmanager::Road* road         = odr->GetRoadById(entityObject->pos_.GetTrackId());
 
+        objFound = false;
+        result   = false;
+
         if (road == nullptr)
         {
-            return result;
+            if (EvalDone(result, triggering_entity_rule_))
+            {
+                break;
+            }
+            continue;
         }
 
         Object* refObject_;
-        result = false;
 
         // First check all entities within lane range
         for (size_t j = 0; j < storyBoard_->entities_->object_.size(); j++)
-- 
2.43.0


From 9604125747ad28f48fb8790987bbf9e11b46a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 38/73] fix: angle condition did not register triggering
 entities and ignored missing trajectory when all entities are required

---
 .../ScenarioEngine/OSCTypeDefs/OSCCondition.cpp        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index f7c1168..02cfb65 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -1455,6 +1455,11 @@ bool TrigByAngle::CheckCondition(double sim_time)
             RMTrajectory* traj = entity.object_->pos_.GetTrajectory();
             if (traj == nullptr)
             {
+                result = false;
+                if (EvalDone(result, triggering_entity_rule_))
+                {
+                    break;
+                }
                 continue;
             }
             else if (angle_type_ == AngleType::HEADING)  // no support for pitch and roll yet
@@ -1468,6 +1473,11 @@ bool TrigByAngle::CheckCondition(double sim_time)
         auto   diff                   = GetAbsAngleDifference(current_angle_adjusted, value_);
         result                        = diff < tolerance_ + SMALL_NUMBER;
 
+        if (result == true)
+        {
+            triggered_by_entities_.push_back(entity.object_);
+        }
+
         if (EvalDone(result, triggering_entity_rule_))
         {
             break;
-- 
2.43.0


From dcef4ff5aff1f101d8e9eb8d76dbee0bd0315a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 39/73] fix: reach position condition with orientation crashed
 when logged without triggering entity

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 02cfb65..b1c9e0f 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -934,7 +934,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
 
 std::string TrigByReachPosition::GetAdditionalLogInfo()
 {
-    if (checkOrientation_)
+    if (checkOrientation_ && !triggered_by_entities_.empty())
     {
         return fmt::format("distance {:.2f} < tolerance ({:.2f}), orientation [{:.2f}, {:.2f}, {:.2f}] (tolerance {:.2f}), edge: {}",
                            dist_,
-- 
2.43.0


From 8097e53d8db9b154391b5a220879fdbb48ce8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 40/73] fix: a failed load left references to storyboard
 element conditions for the next load

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 2e3622b..051653a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -5369,6 +5369,9 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
 
 int ScenarioReader::parseStoryBoard(StoryBoard &storyBoard)
 {
+    // remove any remains of a previous, failed, load
+    storyboard_element_triggers.clear();
+
     story_board_                  = &storyBoard;
     pugi::xml_node storyBoardNode = osc_root_.child("Storyboard");
     pugi::xml_node storyNode      = storyBoardNode.child("Story");
-- 
2.43.0


From 6ca3ce1a63105753a6d66982f5b22acbcf5b7089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 41/73] fix: signal controllers of the previous road network
 were kept

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index dc91093..be6ef68 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3677,6 +3677,8 @@ void OpenDrive::Clear()
     }
     junction_.clear();
 
+    controller_.clear();
+
     SetSpeedUnit(SpeedUnit::UNDEFINED);
 
     geo_offset_.hdg_                = 0.0;
-- 
2.43.0


From 5045175e40050828bc507bfc67123def2c787c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 42/73] fix: collision option of one scenario stayed active for
 the next

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index 5dd511a..008bc00 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -123,6 +123,11 @@ ScenarioPlayer::~ScenarioPlayer()
     }
 #endif  // _USE_OSI
 
+    if (SE_Env::Inst().GetOptions().GetOptionSet("collision"))
+    {
+        SE_Env::Inst().SetCollisionDetection(false);
+    }
+
     SE_Env::Inst().GetOptions().Reset();
 }
 
-- 
2.43.0


From a529986456032a8c407c0d815578a4fec7448724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 43/73] fix: copied follow trajectory action got the timing
 offset as initial distance offset

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0752537..c37a77f 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -1189,7 +1189,7 @@ namespace scenarioengine
             timing_domain_             = action.timing_domain_;
             timing_scale_              = action.timing_scale_;
             timing_offset_             = action.timing_offset_;
-            initialDistanceOffset_     = action.timing_offset_;
+            initialDistanceOffset_     = action.initialDistanceOffset_;
             following_mode_            = action.following_mode_;
             time_                      = 0;
             initialHeadingSign_        = action.initialHeadingSign_;
-- 
2.43.0


From 55ab65337e18649f18957018ac50b510ba845664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 44/73] fix: light state action could not be copied, ghost of
 entity with initial light state crashed

---
 .../OSCTypeDefs/OSCPrivateAction.hpp          | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index c37a77f..30fd733 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -1485,6 +1485,29 @@ namespace scenarioengine
             SetInitState();
         }
 
+        LightStateAction(const LightStateAction& action) : LightStateAction(action.parent_)
+        {
+            SetName(action.GetName());
+            transitionTime_      = action.transitionTime_;
+            flashingOffDuration_ = action.flashingOffDuration_;
+            flashingOnDuration_  = action.flashingOnDuration_;
+            for (size_t i = 0; i < CMYK_ARRAY_SIZE_; i++)
+            {
+                cmyk_[i] = action.cmyk_[i];
+            }
+            rgbDeducedFromLightType_  = action.rgbDeducedFromLightType_;
+            vehicleLightMode_         = action.vehicleLightMode_;
+            luminousitySet_           = action.luminousitySet_;
+            actionVehicleLightStatus_ = action.actionVehicleLightStatus_;
+            colorSet_                 = action.colorSet_;
+        }
+
+        OSCPrivateAction* Copy()
+        {
+            LightStateAction* new_action = new LightStateAction(*this);
+            return new_action;
+        }
+
         ~LightStateAction();
 
         enum class FlashingStatus
-- 
2.43.0


From f25a40f273e4b763ca0ffd49d4fe8907c92983ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 45/73] fix: copied speed profile action lost its dynamic
 constraints

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 30fd733..e9b74ac 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -383,6 +383,7 @@ namespace scenarioengine
         {
             SetName(action.GetName());
             following_mode_ = action.following_mode_;
+            dynamics_       = action.dynamics_;
             entry_          = action.entry_;
             entity_ref_     = action.entity_ref_;
             speed_          = action.speed_;
-- 
2.43.0


From 2b1a3a0c78e51f10ac9c41e1bb0ea1c7bdbbcea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 46/73] fix: copied synchronize action lost steady state and
 tolerances

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index e9b74ac..da9f0b1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -902,17 +902,17 @@ namespace scenarioengine
             submode_                = action.submode_;
             lastDist_               = LARGE_NUMBER;
             lastMasterDist_         = LARGE_NUMBER;
-            tolerance_              = SYNCH_DISTANCE_TOLERANCE;
-            tolerance_master_       = SYNCH_DISTANCE_TOLERANCE;
-            if (steadyState_.type_ == SteadyStateType::STEADY_STATE_DIST)
+            tolerance_              = action.tolerance_;
+            tolerance_master_       = action.tolerance_master_;
+            if (action.steadyState_.type_ == SteadyStateType::STEADY_STATE_DIST)
             {
                 steadyState_.dist_ = action.steadyState_.dist_;
             }
-            else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_TIME)
+            else if (action.steadyState_.type_ == SteadyStateType::STEADY_STATE_TIME)
             {
-                steadyState_.dist_ = action.steadyState_.time_;
+                steadyState_.time_ = action.steadyState_.time_;
             }
-            else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_POS)
+            else if (action.steadyState_.type_ == SteadyStateType::STEADY_STATE_POS)
             {
                 steadyState_.pos_ = action.steadyState_.pos_;
             }
-- 
2.43.0


From d26f8e1563e0cef48831a14196dff314f2a11621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 47/73] fix: copied trajectory lost its name, closed flag and
 clothoid spline end time

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index be6ef68..129f764 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13656,7 +13656,8 @@ Shape* ClothoidSplineShape::Copy()
     {
         shape->AddSegment(s.posStart_, s.curvStart_, s.curvEnd_, s.length_, s.h_offset_, s.time_);
     }
-    shape->spirals_ = spirals_;
+    shape->spirals_  = spirals_;
+    shape->time_end_ = time_end_;
     shape->CalculatePolyLine();
     return shape;
 }
@@ -15398,6 +15399,8 @@ RMTrajectory* RMTrajectory::Copy()
 {
     RMTrajectory* traj = new RMTrajectory();
     traj->shape_       = shape_->Copy();
+    traj->name_        = name_;
+    traj->closed_      = closed_;
 
     return traj;
 }
-- 
2.43.0


From ce021d49b4cc70b4986f362035d3f1503c670019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:21 +0000
Subject: [PATCH 48/73] fix: parameters declared in a maneuver or environment
 stayed visible after it, hiding those of the rest of the scenario

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp     | 1 -
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp | 8 ++++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 1fa73b1..1351aa0 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,7 +19,6 @@ using namespace scenarioengine;
 
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
-    paramDeclarationsSize_.push(static_cast<int>(parameterDeclarations_.Parameter.size()));
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 051653a..b01717c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -5220,6 +5220,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
 {
     maneuver->SetName(parameters.ReadAttribute(maneuverNode, "name"));
 
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node maneuverChild = maneuverNode.first_child(); maneuverChild; maneuverChild = maneuverChild.next_sibling())
     {
         std::string maneuverChildName(maneuverChild.name());
@@ -5365,6 +5367,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
             maneuver->event_.push_back(event);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
 
 int ScenarioReader::parseStoryBoard(StoryBoard &storyBoard)
@@ -5567,6 +5571,8 @@ static void SelectCloudState(scenarioengine::CloudState &state, const std::strin
 
 void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvironment &env)
 {
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node envChild : xml_node.children())
     {
         std::string envChildName(envChild.name());
@@ -5764,4 +5770,6 @@ void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvi
             LOG_WARN("Not valid environment attribute name:{}", envChildName);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
-- 
2.43.0


From 7114934b453269d88cdad0ec1d36e8c46d6b07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:21 +0000
Subject: [PATCH 49/73] fix: parameter assignments of a failed catalog
 reference applied to the next one

---
 .../ScenarioEngine/SourceFiles/ScenarioReader.cpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index b01717c..d087aad 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -819,6 +819,7 @@ Vehicle *ScenarioReader::parseOSCVehicle(pugi::xml_node vehicleNode)
 
                     if (trailer_trailer_child_node_name == "CatalogReference")
                     {
+                        parameters.CreateRestorePoint();
                         Entry *entry = ResolveCatalogReference(trailer_trailer_chile_node);
 
                         if (entry != nullptr)
@@ -833,6 +834,8 @@ Vehicle *ScenarioReader::parseOSCVehicle(pugi::xml_node vehicleNode)
                                 LOG_ERROR("Unexpected catalog type {} for trailer", entry->GetTypeAsStr());
                             }
                         }
+
+                        parameters.RestoreParameterDeclarations();
                     }
                     else if (trailer_trailer_child_node_name == "Vehicle")
                     {
@@ -1680,6 +1683,7 @@ int ScenarioReader::parseEntities()
                     std::string    ctrlChildName(ctrlChild.name());
                     if (ctrlChildName == "CatalogReference")
                     {
+                        parameters.CreateRestorePoint();
                         Entry *entry = ResolveCatalogReference(ctrlChild);
 
                         if (entry == 0)
@@ -1697,6 +1701,8 @@ int ScenarioReader::parseEntities()
                                 LOG_ERROR("Unexpected catalog type {}", entry->GetTypeAsStr());
                             }
                         }
+
+                        parameters.RestoreParameterDeclarations();
                     }
                     else
                     {
@@ -2514,13 +2520,16 @@ OSCGlobalAction *ScenarioReader::parseOSCGlobalAction(pugi::xml_node actionNode,
                 }
                 else if (envChild.name() == std::string("CatalogReference"))
                 {
+                    parameters.CreateRestorePoint();
                     Entry *entry = ResolveCatalogReference(envChild);
                     if (entry == nullptr)
                     {
                         LOG_WARN("Ignoring CatalogReference in environment, Failed to resolve catalog reference");
+                        parameters.RestoreParameterDeclarations();
                         continue;
                     }
                     parseOSCEnvironment(entry->GetNode(), envAction->new_environment_);
+                    parameters.RestoreParameterDeclarations();
                 }
                 else
                 {
@@ -3607,6 +3616,7 @@ OSCPrivateAction *ScenarioReader::parseOSCPrivateAction(pugi::xml_node actionNod
                 }
                 else if (controllerDefNode.name() == std::string("CatalogReference"))
                 {
+                    parameters.CreateRestorePoint();
                     Entry *entry = ResolveCatalogReference(controllerDefNode);
 
                     if (entry == 0)
@@ -3624,6 +3634,8 @@ OSCPrivateAction *ScenarioReader::parseOSCPrivateAction(pugi::xml_node actionNod
                             LOG_ERROR("Unexpected catalog type {}", entry->GetTypeAsStr());
                         }
                     }
+
+                    parameters.RestoreParameterDeclarations();
                 }
                 else
                 {
-- 
2.43.0


From 9c3570dbd91f1f7095a3715d495953c03b7d310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:41 +0000
Subject: [PATCH 50/73] fix: parameter reference in the route strategy of a
 waypoint was not resolved

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index d087aad..c2e6f03 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -1214,7 +1214,7 @@ roadmanager::Route *ScenarioReader::parseOSCRoute(pugi::xml_node routeNode)
         else if (routeChildName == "Waypoint")
         {
             roadmanager::Position::RouteStrategy rs            = roadmanager::Position::RouteStrategy::SHORTEST;
-            std::string                          routeStrategy = routeChild.attribute("routeStrategy").value();
+            std::string                          routeStrategy = parameters.ReadAttribute(routeChild, "routeStrategy");
             if (routeStrategy == "leastIntersections")
             {
                 rs = roadmanager::Position::RouteStrategy::MIN_INTERSECTIONS;
-- 
2.43.0


From bef2ff2c457b2fe63fa84556a12158757a695749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 51/73] fix: find lane section starting at given s also when
 searching backwards

Road::GetLaneSectionIdxByS() returned the section before the one starting
exactly at s when the search started further ahead.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 129f764..fd0f195 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -1758,7 +1758,7 @@ idx_t Road::GetLaneSectionIdxByS(double s, idx_t start_at) const
                 return IDX_UNDEFINED;
             }
 
-            if (s > lane_section->GetS())
+            if (s >= lane_section->GetS())
             {
                 break;
             }
-- 
2.43.0


From 4c7b605da4402c7bc76b68a79ee3bb4993c8fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 52/73] fix: end of road mark is relative to start of lane
 section

Lane::GetRoadMarkInfoByS() compared road s with the section relative offset
of the next road mark, hence missing marks in sections not starting at 0.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index fd0f195..f3fa668 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -2482,7 +2482,7 @@ RoadMarkInfo Lane::GetRoadMarkInfoByS(id_t track_id, int lane_id, double s) cons
                         }
                         else
                         {
-                            s_end_roadmark = lane->GetLaneRoadMarkByIdx(m + 1)->GetSOffset();
+                            s_end_roadmark = lsec->GetS() + lane->GetLaneRoadMarkByIdx(m + 1)->GetSOffset();
                         }
 
                         // Check the existence of "type" keyword under roadmark
-- 
2.43.0


From 391ebfb6e36798ac0fcee80ee127b5a646acbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 53/73] fix: end of road mark line is relative to start of road
 mark

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index f3fa668..dda32b2 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -2512,7 +2512,7 @@ RoadMarkInfo Lane::GetRoadMarkInfoByS(id_t track_id, int lane_id, double s) cons
                                     }
                                     else
                                     {
-                                        s_end_roadmarkline = lane_roadMarkType->GetLaneRoadMarkTypeLineByIdx(n + 1)->GetSOffset();
+                                        s_end_roadmarkline = s_roadmark + lane_roadMarkType->GetLaneRoadMarkTypeLineByIdx(n + 1)->GetSOffset();
                                     }
                                 }
 
-- 
2.43.0


From f2c32ed27c3b2d06d75fa022aeae8dfb1a2fb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 54/73] fix: reset superelevation derivative on roads without
 superelevation

The position kept the derivative of the previous road.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index dda32b2..df00528 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3509,7 +3509,8 @@ bool Road::UpdateRollByS(double s, double* roadSuperElevationPrim, double* roll,
     }
     else
     {
-        *roll = 0.0;
+        *roll                   = 0.0;
+        *roadSuperElevationPrim = 0.0;
     }
 
     return false;
-- 
2.43.0


From daa8897fd632709542800325646731863436f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 55/73] fix: connected lane at s follows lane links only across
 passed lane sections

Road::GetConnectedLaneIdAtS() moved to the lane of the next section even when
the target was within the same lane section as the start.
---
 .../Modules/RoadManager/RoadManager.cpp         | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index df00528..7c551e6 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3147,26 +3147,23 @@ int Road::GetConnectedLaneIdAtS(int lane_id, double s_start, double s_target) co
         LaneSection* lsec = GetLaneSectionByIdx(lsec_idx);
         if (lsec != nullptr)
         {
-            int    lane_id_tmp = lane_id;
-            double s           = s_start;
+            int lane_id_tmp = lane_id;
             if (s_target > s_start - SMALL_NUMBER)
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j < GetNumberOfLaneSections() - 1 && s < s_target; j++)
+                for (unsigned int j = lsec_idx;
+                     lane_id_tmp != 0 && j < GetNumberOfLaneSections() - 1 && s_target > GetLaneSectionByIdx(j + 1)->GetS() - SMALL_NUMBER;
+                     j++)
                 {
                     // find connecting lane id
-                    lsec        = GetLaneSectionByIdx(j);
-                    lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::SUCCESSOR);
-                    s           = lsec->GetS();
+                    lane_id_tmp = GetLaneSectionByIdx(j)->GetConnectingLaneId(lane_id_tmp, LinkType::SUCCESSOR);
                 }
             }
             else
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && s > s_target; j--)
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && s_target < GetLaneSectionByIdx(j)->GetS(); j--)
                 {
                     // find connecting lane id
-                    lsec        = GetLaneSectionByIdx(j);
-                    lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::PREDECESSOR);
-                    s           = lsec->GetS();
+                    lane_id_tmp = GetLaneSectionByIdx(j)->GetConnectingLaneId(lane_id_tmp, LinkType::PREDECESSOR);
                 }
             }
             connected_lane_id = lane_id_tmp;
-- 
2.43.0


From 34939f0815739f6fdc8b5e99df25dcf6aa779490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:20 +0000
Subject: [PATCH 56/73] fix: lane at the end of the start road was derived from
 the one at its start when looking for a path in both directions

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 7c551e6..670d93d 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6162,11 +6162,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
             if (contact_point == ContactPointType::CONTACT_POINT_END)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), -1.0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), -1.0);
             }
             else if (contact_point == ContactPointType::CONTACT_POINT_START)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), 0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), 0);
             }
             else
             {
-- 
2.43.0


From 7418676950d8252044949eaa985f8524714075e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:21 +0000
Subject: [PATCH 57/73] fix: lane difference to a position on another road with
 several lane sections

---
 .../Modules/RoadManager/RoadManager.cpp       | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 670d93d..0951150 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -11727,31 +11727,24 @@ bool Position::Delta(Position* pos_b, PositionDiff& diff, bool bothDirections, d
 
         if (last_node != nullptr)
         {
-            // Find out corresponding lane ID of connected route up to pos B
-            if (last_node->contactPoint == ContactPointType::CONTACT_POINT_START)
+            // Find out at which end of the road of pos B the path arrives
+            ContactPointType entry_point = last_node->link->GetContactPointType();
+            if (last_node->link->GetElementType() == RoadLink::ELEMENT_TYPE_JUNCTION)
             {
-                // move to end of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, -1.0, 0.0);
-                // find out the connecting lane at beginning of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, 0.0, pos_b->GetS());
-
-                // Check relative heading
-                pos_a_forward = true;  // We come in at the start of the road, so we are aligned with the road direction
+                if (!last_node->fromRoad->IsSuccessor(road_B, &entry_point))
+                {
+                    last_node->fromRoad->IsPredecessor(road_B, &entry_point);
+                }
             }
-            else
-            {
-                // move to start of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, 0.0, -1.0);
-                // find out the connecting lane at start of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, -1.0, pos_b->GetS());
 
-                // Check relative heading
-                pos_a_forward = false;  // We come in at the end of the road, so we are aligned against the road direction
-            }
+            // Find out corresponding lane ID of connected route up to pos B, starting from the lane ID at the last link
+            adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, last_node->fromLaneId, pos_b->GetTrackId());
+
+            // move to the s location of pos B to find out the lane ID there (possibly another lane section)
+            adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, entry_point == CONTACT_POINT_START ? 0.0 : -1.0, pos_b->GetS());
+
+            // Check relative heading, coming in at the start of the road means being aligned with the road direction
+            pos_a_forward = entry_point == CONTACT_POINT_START;
         }
         // If the relative direction of the two positions is the same, we are driving in the same direction unless the detected path is reversed, then
         // we have to invert the dDirection
-- 
2.43.0


From 5f2cb69fc601571dfa1b0a0f5de711f971cbea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:04 +0000
Subject: [PATCH 58/73] fix: assign controller action swapped lateral and
 longitudinal activation

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 45944a7..23786d5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -751,7 +751,7 @@ void AssignControllerAction::Start(double simTime)
                 if (lat_activation_mode_ != ControlActivationMode::UNDEFINED || long_activation_mode_ != ControlActivationMode::UNDEFINED ||
                     light_activation_mode_ != ControlActivationMode::UNDEFINED || anim_activation_mode_ != ControlActivationMode::UNDEFINED)
                 {
-                    controller_->Activate({lat_activation_mode_, long_activation_mode_, light_activation_mode_, anim_activation_mode_});
+                    controller_->Activate({long_activation_mode_, lat_activation_mode_, light_activation_mode_, anim_activation_mode_});
                     LOG_INFO("Controller {} activated (lat {}, long {}, light {}, anim {}), domain mask=0x{}",
                              controller_->GetName(),
                              DomainActivation2Str(lat_activation_mode_),
-- 
2.43.0


From 936cc115531213597c575ee68461c6d0e0347e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:04 +0000
Subject: [PATCH 59/73] fix: activation took the domain from the activated
 controller instead of from the previously active one

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 23786d5..e342b85 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -832,9 +832,9 @@ void ActivateControllerAction::Start(double simTime)
                 {
                     if (scenarioEngine_->GetScenarioReader()->GetVersionMinor() >= 3)
                     {
-                        LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", controller_->GetName(), ControlDomain2Str(domain));
+                        LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", ctrl->GetName(), ControlDomain2Str(domain));
                         // from osc v1.3 onwards, deactivation is done per domain
-                        controller_->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
+                        ctrl->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
                     }
                     else
                     {
-- 
2.43.0


From e128d9d61881c5fe1d091fe349cbdbdf6ff6a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:04 +0000
Subject: [PATCH 60/73] fix: controller type was ignored when looking for
 controllers active on domains

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index c7192e1..1712674 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -158,7 +158,7 @@ bool Object::IsControllerActiveOnDomains(unsigned int domainMask, Controller::Ty
     {
         if (ctrl->IsActiveOnDomains(domainMask))
         {
-            if (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == ctrl->GetType())
+            if (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == type)
             {
                 return true;
             }
@@ -174,7 +174,7 @@ bool Object::IsControllerActiveOnAnyOfDomains(unsigned int domainMask, Controlle
     {
         if (ctrl->IsActiveOnAnyOfDomains(domainMask))
         {
-            if (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == ctrl->GetType())
+            if (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == type)
             {
                 return true;
             }
@@ -190,7 +190,7 @@ bool Object::IsControllerModeOnDomains(ControlOperationMode mode, unsigned int d
     {
         if (ctrl->IsActiveOnDomains(domainMask))
         {
-            if (ctrl->GetMode() == mode && (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == ctrl->GetType()))
+            if (ctrl->GetMode() == mode && (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == type))
             {
                 return true;
             }
@@ -210,7 +210,7 @@ bool Object::IsControllerModeOnAnyOfDomains(ControlOperationMode mode, unsigned
     {
         if (ctrl->IsActiveOnAnyOfDomains(domainMask))
         {
-            if (ctrl->GetMode() == mode && (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == ctrl->GetType()))
+            if (ctrl->GetMode() == mode && (type == Controller::Type::CONTROLLER_TYPE_UNDEFINED || ctrl->GetType() == type))
             {
                 return true;
             }
-- 
2.43.0


From 845f4b6720d789d80cde9ce339ccc3c721f5aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 61/73] fix: lateral distance action respected a controller
 overriding the longitudinal instead of the lateral domain

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index e342b85..0acebf2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2101,7 +2101,7 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
 void LatDistanceAction::Step(double simTime, double dt)
 {
     (void)simTime;
-    if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomains::DOMAIN_LAT)))
+    if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LAT)))
     {
         // lateral motion controlled elsewhere
         return;
-- 
2.43.0


From 42bcdc224bc91b3f1b02104a3f644d9611daa471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 62/73] fix: speed profile action set speed also when a
 controller overrides the longitudinal domain

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 0acebf2..f3a80d6 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1680,6 +1680,13 @@ void LongSpeedProfileAction::Start(double simTime)
 
 void LongSpeedProfileAction::Step(double simTime, double dt)
 {
+    if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)))
+    {
+        // longitudinal motion controlled elsewhere
+        OSCAction::End();
+        return;
+    }
+
     double time = simTime + dt;
 
     if (time < segment_.back().t + 10 && !(time > segment_.back().t and abs(speed_ - segment_.back().v) < SMALL_NUMBER))
-- 
2.43.0


From c3af5631fdcc539b4ee5b9c57f1de525336586d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 63/73] fix: repeated speed action over distance used the
 duration of the previous execution as distance

---
 .../OSCTypeDefs/OSCPrivateAction.cpp           | 18 +++++++++++++++---
 .../OSCTypeDefs/OSCPrivateAction.hpp           |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index f3a80d6..2a1f4c0 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -215,6 +215,12 @@ void OSCPrivateAction::TransitionDynamics::Reset()
     param_val_    = 0.0;
     start_val_    = 0.0;
     target_val_   = 0.0;
+
+    if (dimension_ != DynamicsDimension::RATE)
+    {
+        // restore specified range, it might have been replaced during previous execution
+        param_target_val_ = param_setting_;
+    }
 }
 
 int OSCPrivateAction::TransitionDynamics::Step(double delta_param_val)
@@ -249,6 +255,7 @@ void OSCPrivateAction::TransitionDynamics::SetParamTargetVal(double target_value
 {
     if (dimension_ != DynamicsDimension::RATE)
     {
+        param_setting_    = target_value;
         param_target_val_ = target_value;
     }
     else
@@ -258,6 +265,11 @@ void OSCPrivateAction::TransitionDynamics::SetParamTargetVal(double target_value
     }
 }
 
+void OSCPrivateAction::TransitionDynamics::SetParamRange(double range)
+{
+    param_target_val_ = range;
+}
+
 void OSCPrivateAction::TransitionDynamics::SetMaxRate(double max_rate)
 {
     // Check max rate
@@ -1205,7 +1217,7 @@ void LongSpeedAction::Start(double simTime)
         if (abs(v1 - v0) < SMALL_NUMBER)
         {
             // no change
-            transition_.SetParamTargetVal(0.0);
+            transition_.SetParamRange(0.0);
         }
         else if (abs(v0) > SMALL_NUMBER && abs(v1) > SMALL_NUMBER && SIGN(v0) != SIGN(v1))
         {
@@ -1223,13 +1235,13 @@ void LongSpeedAction::Start(double simTime)
             // calculate duration of remaning part 2
             double t1 = 2.0 * (dist - d0) / abs(v1);
 
-            transition_.SetParamTargetVal(t0 + t1);
+            transition_.SetParamRange(t0 + t1);
         }
         else  // change of speed without changing driving direction
         {
             // integrated distance = time(v_init + v_delta/2) = time(v_init + v_end)/2
             // => time = 2*distance/(v_init + v_end)
-            transition_.SetParamTargetVal(2 * dist / (abs(v0 + v1)));
+            transition_.SetParamRange(2 * dist / (abs(v0 + v1)));
         }
     }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index da9f0b1..304e296 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -84,6 +84,7 @@ namespace scenarioengine
                   start_val_(0),
                   target_val_(0),
                   param_target_val_(0),
+                  param_setting_(0),
                   scale_factor_(1.0),
                   param_val_(0),
                   rate_(0)
@@ -115,6 +116,7 @@ namespace scenarioengine
             }
 
             void   SetParamTargetVal(double target_value);
+            void   SetParamRange(double range);  // parameter range of the ongoing transition, until next reset
             double GetParamTargetVal() const
             {
                 return param_target_val_;
@@ -135,6 +137,7 @@ namespace scenarioengine
             double start_val_;
             double target_val_;
             double param_target_val_;
+            double param_setting_;  // specified value of param_target_val_, for dimensions other than rate
             double scale_factor_;
             double param_val_;
             double rate_;
-- 
2.43.0


From 825daeaabeb101a835eb0778406abf4f420bc974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 64/73] fix: repeated speed profile action kept segments and
 fallback mode of the previous execution

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 28 ++++++++++---------
 .../OSCTypeDefs/OSCPrivateAction.hpp          |  2 ++
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 2a1f4c0..74ec8be 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1349,7 +1349,9 @@ void LongSpeedProfileAction::Start(double simTime)
     double speed_offset = entity_ref_ != nullptr ? entity_ref_->GetSpeed() : 0.0;
     double init_time_   = simTime;
 
-    init_acc_ = object_->pos_.GetAccLong();
+    init_acc_    = object_->pos_.GetAccLong();
+    active_mode_ = following_mode_;
+    segment_.clear();
 
     std::vector<EntryVertex> vertex;
     unsigned int             index = 0;
@@ -1362,7 +1364,7 @@ void LongSpeedProfileAction::Start(double simTime)
     }
     else if (entry_[0].time_ > -SMALL_NUMBER)
     {
-        if (following_mode_ == FollowingMode::FOLLOW)
+        if (active_mode_ == FollowingMode::FOLLOW)
         {
             // replace first entry at time = 0.0 with current speed
             vertex.push_back(EntryVertex(init_time_, object_->GetSpeed()));
@@ -1477,7 +1479,7 @@ void LongSpeedProfileAction::Start(double simTime)
     {
         AddSpeedSegment(vtx.t_, vtx.v_, 0.0, 0.0);
     }
-    else if (following_mode_ == FollowingMode::FOLLOW && vertex.size() == 2)
+    else if (active_mode_ == FollowingMode::FOLLOW && vertex.size() == 2)
     {
         // Special case: Single speed target, following mode = follow
         // Reach target speed with given jerk contraint. Add linear segment if needed.
@@ -1507,7 +1509,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         if (fabs(j1 - j0) < SMALL_NUMBER)
         {
-            // following_mode_ = FollowingMode::POSITION;
+            // active_mode_ = FollowingMode::POSITION;
             if (fabs(t0 - t3) > SMALL_NUMBER && fabs(j1 * (t0 - t3) - k0) > SMALL_NUMBER)
             {
                 t1 = (2 * j1 * (v0 + t0 * j1 * (t0 - t3) - v3) + pow(k0, 2) + 2 * k0 * j1 * (t3 - 2 * t0)) / (2 * j1 * (j1 * (t0 - t3) - k0));
@@ -1618,7 +1620,7 @@ void LongSpeedProfileAction::Start(double simTime)
     {
         // Normal case: Follow acceleration (slopes) of multiple speed targets over time
 
-        if (following_mode_ == FollowingMode::FOLLOW)
+        if (active_mode_ == FollowingMode::FOLLOW)
         {
             if (abs(vtx.k_) > SMALL_NUMBER)
             {
@@ -1638,7 +1640,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         for (index = 0; index < vertex.size(); index++)
         {
-            if (following_mode_ == FollowingMode::POSITION)
+            if (active_mode_ == FollowingMode::POSITION)
             {
                 vtx = vertex[index];
                 AddSpeedSegment(vtx.t_, vtx.v_, vtx.k_, 0.0);
@@ -1668,7 +1670,7 @@ void LongSpeedProfileAction::Start(double simTime)
                         LOG_WARN("LongSpeedProfileAction failed at point {} (time={:.2f}). Falling back to linear (Position) mode.",
                                  index,
                                  vertex[index].t_);
-                        following_mode_ = FollowingMode::POSITION;
+                        active_mode_ = FollowingMode::POSITION;
                         continue;
                     }
 
@@ -1732,7 +1734,7 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 
 void LongSpeedProfileAction::CheckAcceleration(double acc)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (active_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1744,13 +1746,13 @@ void LongSpeedProfileAction::CheckAcceleration(double acc)
                  dynamics_.max_acceleration_,
                  -dynamics_.max_deceleration_);
 
-        following_mode_ = FollowingMode::POSITION;
+        active_mode_ = FollowingMode::POSITION;
     }
 }
 
 void LongSpeedProfileAction::CheckAccelerationRate(double acc_rate)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (active_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1762,13 +1764,13 @@ void LongSpeedProfileAction::CheckAccelerationRate(double acc_rate)
                  dynamics_.max_acceleration_rate_,
                  -dynamics_.max_deceleration_rate_);
 
-        following_mode_ = FollowingMode::POSITION;
+        active_mode_ = FollowingMode::POSITION;
     }
 }
 
 void LongSpeedProfileAction::CheckSpeed(double speed)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (active_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1780,7 +1782,7 @@ void LongSpeedProfileAction::CheckSpeed(double speed)
                  dynamics_.max_speed_,
                  -dynamics_.max_speed_);
 
-        following_mode_ = FollowingMode::POSITION;
+        active_mode_ = FollowingMode::POSITION;
     }
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 304e296..b5a9e5b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -443,6 +443,8 @@ namespace scenarioengine
         double speed_;
         double acc_;
         double init_acc_;  // initial acceleration at start of the action
+        // mode of current execution, falls back to POSITION if the constraints can't be met
+        FollowingMode active_mode_ = FollowingMode::POSITION;
     };
 
     class LongDistanceAction : public OSCPrivateAction
-- 
2.43.0


From 0ef0766360ac0e216b0fb5ff193cdefea63327a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 65/73] fix: repeated longitudinal distance action kept
 displacement and acceleration of the previous execution

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 13 ++++++++-----
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 74ec8be..702ff88 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1831,8 +1831,11 @@ void LongDistanceAction::Start(double simTime)
         return;
     }
 
+    acceleration_ = 0.0;
+
     // Resolve displacement
-    if (displacement_ == DisplacementType::ANY)
+    active_displacement_ = displacement_;
+    if (active_displacement_ == DisplacementType::ANY)
     {
         // Find out current displacement, and apply it
         double distance;
@@ -1853,11 +1856,11 @@ void LongDistanceAction::Start(double simTime)
 
         if (distance < 0.0)
         {
-            displacement_ = DisplacementType::LEADING;
+            active_displacement_ = DisplacementType::LEADING;
         }
         else
         {
-            displacement_ = DisplacementType::TRAILING;
+            active_displacement_ = DisplacementType::TRAILING;
         }
     }
 
@@ -1902,11 +1905,11 @@ void LongDistanceAction::Step(double simTime, double dt)
         requested_dist = abs(target_object_->speed_) * distance_;
     }
 
-    if (displacement_ == DisplacementType::TRAILING)
+    if (active_displacement_ == DisplacementType::TRAILING)
     {
         requested_dist = abs(requested_dist);
     }
-    else if (displacement_ == DisplacementType::LEADING)
+    else if (active_displacement_ == DisplacementType::LEADING)
     {
         requested_dist = -abs(requested_dist);
     }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index b5a9e5b..6fcf094 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -523,7 +523,8 @@ namespace scenarioengine
         void ReplaceObjectRefs(Object* obj1, Object* obj2);
 
     private:
-        double acceleration_;
+        double           acceleration_;
+        DisplacementType active_displacement_ = DisplacementType::NONE;  // displacement_ with ANY resolved for current execution
     };
 
     class LatDistanceAction : public OSCPrivateAction
-- 
2.43.0


From 05a8fd6184b9490552d0d85d39098ddb69071436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 66/73] fix: repeated lateral distance action adjusted the
 distance again

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 22 ++++++++++---------
 .../OSCTypeDefs/OSCPrivateAction.hpp          |  1 +
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 702ff88..25594df 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2010,33 +2010,35 @@ void LatDistanceAction::Start(double simTime)
     double ego_width    = object_->boundingbox_.dimensions_.width_;
     double target_width = target_object_->boundingbox_.dimensions_.width_;
 
+    target_distance_ = distance_;
+
     if (cs_ == roadmanager::CoordinateSystem::CS_ENTITY)
     {
         if (freespace_)
         {
-            distance_ += (ego_width + target_width) / 2.0;
+            target_distance_ += (ego_width + target_width) / 2.0;
         }
-        distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
+        target_distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
     }
     else if (cs_ == roadmanager::CoordinateSystem::CS_ROAD)
     {
         if (displacement_ == DisplacementType::LEFT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the left side of the target object
-            distance_ = -abs(distance_);
-            sign_     = -1.0;
+            target_distance_ = -abs(target_distance_);
+            sign_            = -1.0;
         }
         else if (displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the right side of the target object
-            distance_ = abs(distance_);
-            sign_     = 1.0;
+            target_distance_ = abs(target_distance_);
+            sign_            = 1.0;
         }
 
         if (freespace_)
         {
             // We only take the width of the cars into account if we are in freespace mode
-            distance_ += sign_ * (ego_width + target_width) / 2.0;
+            target_distance_ += sign_ * (ego_width + target_width) / 2.0;
         }
     }
 
@@ -2114,11 +2116,11 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
     // Both cars facing same direction, either along the driving direction or against it
     if ((facing_forward && pos_diff.dDirection) || (!facing_forward && !pos_diff.dDirection))
     {
-        distance_error = -(pos_diff.dt + distance_);
+        distance_error = -(pos_diff.dt + target_distance_);
     }
     else  // The cars are facing opposite directions
     {
-        distance_error = -(pos_diff.dt - distance_);
+        distance_error = -(pos_diff.dt - target_distance_);
     }
 }
 
@@ -2140,7 +2142,7 @@ void LatDistanceAction::Step(double simTime, double dt)
         double step_len             = object_->GetSpeed() * dt;
 
         RotateVec2D(1.0, 0.0, target_object_->pos_.GetH(), target_obj_x_axis[0], target_obj_x_axis[1]);
-        RotateVec2D(0.0, distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
+        RotateVec2D(0.0, target_distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
 
         // calculate target position, i.e. aiming point
         ProjectPointOnLine2D(object_->pos_.GetX(),
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 6fcf094..959830c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -627,6 +627,7 @@ namespace scenarioengine
         double       old_x_;
         double       old_y_;
         double       sign_;
+        double       target_distance_ = 0.0;  // signed distance between reference points, for current execution
     };
 
     class LatLaneChangeAction : public OSCPrivateAction
-- 
2.43.0


From d0a424a0fbc582fa1f850218f2cc7265b40cc287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 67/73] fix: repeated synchronize action kept mode, distances
 and resolved steady state of the previous execution

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 25594df..9cec681 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2662,11 +2662,15 @@ void SynchronizeAction::Start(double simTime)
     target_position_master_.EvaluateRelation();
     target_position_.EvaluateRelation();
 
+    mode_           = SynchMode::MODE_NONE;
+    submode_        = SynchSubmode::SUBMODE_NONE;
+    lastDist_       = LARGE_NUMBER;
+    lastMasterDist_ = LARGE_NUMBER;
+
     // resolve steady state -> translate into dist
     if (steadyState_.type_ == SteadyStateType::STEADY_STATE_TIME)
     {
         steadyState_.dist_ = steadyState_.time_ * final_speed_->GetValue();
-        steadyState_.type_ = SteadyStateType::STEADY_STATE_DIST;
     }
     else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_POS)
     {
@@ -2674,7 +2678,6 @@ void SynchronizeAction::Start(double simTime)
         roadmanager::PositionDiff diff;
         target_position_.Delta(&steadyState_.pos_, diff);
         steadyState_.dist_ = diff.ds;
-        steadyState_.type_ = SteadyStateType::STEADY_STATE_DIST;
     }
 
     OSCAction::Start(simTime);
-- 
2.43.0


From 62b9971aa435240b42f0d5318da8414899004cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:12 +0000
Subject: [PATCH 68/73] fix: start each execution of a lateral distance action
 with zero lateral velocity and acceleration

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 9cec681..8e8af1a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2042,7 +2042,9 @@ void LatDistanceAction::Start(double simTime)
         }
     }
 
-    move_state_ = MoveState::INIT;
+    move_state_   = MoveState::INIT;
+    lat_vel_      = 0.0;
+    acceleration_ = 0.0;
 
     // do some usage checks
     if (cs_ == roadmanager::CoordinateSystem::CS_ENTITY)
-- 
2.43.0


From b4b9760729ea8753c79f418050bbc866ca7102ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:55 +0000
Subject: [PATCH 69/73] fix: object sensor mounted at an angle detected objects
 on the wrong side

---
 .../ScenarioEngine/SourceFiles/IdealSensor.cpp      | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 501ee3f..7b416a2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -78,12 +78,6 @@ void ObjectSensor::Update()
 
         // Check whether object is within field of view
 
-        // find out angle between heading vector and line to object
-        double hx = 1.0;
-        double hy = 0.0;
-        double hx2, hy2;
-        RotateVec2D(hx, hy, host_->pos_.GetH(), hx2, hy2);
-
         double sensor_pos_x, sensor_pos_y;
         RotateVec2D(pos_.x, pos_.y, host_->pos_.GetH(), sensor_pos_x, sensor_pos_y);
         pos_.x_global = host_->pos_.GetX() + sensor_pos_x;
@@ -102,11 +96,8 @@ void ObjectSensor::Update()
             continue;
         }
 
-        double xon, yon;
-        NormalizeVec2D(xo, yo, xon, yon);
-
-        // Find angle to object
-        double angle     = acos(GetDotProduct2D(hx2, hy2, xon, yon));
+        // Find angle to object, relative host heading
+        double angle     = GetAngleDifference(GetAngleOfVector(xo, yo), host_->pos_.GetH());
         double rel_angle = GetAbsAngleDifference(angle, pos_.h);
         if (rel_angle < fovH_ / 2)
         {
-- 
2.43.0


From ca53afb7ce16b556529e85390b249623a1b23539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:55 +0000
Subject: [PATCH 70/73] fix: object sensor wrote beyond its object list when
 more objects than max were detected

---
 .../Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 7b416a2..4588064 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -61,7 +61,7 @@ void ObjectSensor::Update()
 {
     nObj_ = 0;
 
-    for (size_t i = 0; i < entities_->object_.size(); i++)
+    for (size_t i = 0; i < entities_->object_.size() && nObj_ < maxObj_; i++)
     {
         Object *obj = entities_->object_[i];
         if (obj == host_ || obj->IsGhost())
-- 
2.43.0


From 21a29efe0f9eff39328279060fa00aad5cbd2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:55 +0000
Subject: [PATCH 71/73] fix: finished injected action skipped when following
 another finished action

---
 EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 8975547..012d81b 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -88,12 +88,15 @@ namespace scenarioengine
 
     void PlayerServer::Step()
     {
-        for (size_t i = 0; i < action_.size(); i++)
+        for (size_t i = 0; i < action_.size();)
         {
             if (action_[i]->GetCurrentState() == OSCAction::State::COMPLETE)
             {
                 LOG_INFO("Injected action {} finished", action_[i]->GetName().c_str());
                 DeleteAction(static_cast<unsigned int>(i));
+            }
+            else
+            {
                 i++;
             }
         }
-- 
2.43.0


From b910aee1bb9d3728cb986930b52fc9031655f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:55 +0000
Subject: [PATCH 72/73] fix: ignore injected action for unknown object instead
 of crashing

---
 .../Modules/PlayerBase/PlayerServer.cpp        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 012d81b..1316213 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -176,6 +176,12 @@ namespace scenarioengine
         LongSpeedAction *a = new LongSpeedAction(nullptr);
         a->SetName("SpeedAction_" + std::to_string(counter_));
         a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (a->object_ == nullptr)
+        {
+            LOG_ERROR("Object {} not found, ignoring injected action {}", action.id, a->GetName());
+            delete a;
+            return;
+        }
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -194,6 +200,12 @@ namespace scenarioengine
         LatLaneChangeAction *a = new LatLaneChangeAction(nullptr);
         a->SetName("LaneChangeAction_" + std::to_string(counter_));
         a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (a->object_ == nullptr)
+        {
+            LOG_ERROR("Object {} not found, ignoring injected action {}", action.id, a->GetName());
+            delete a;
+            return;
+        }
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -222,6 +234,12 @@ namespace scenarioengine
         LatLaneOffsetAction *a = new LatLaneOffsetAction(nullptr);
         a->SetName("LaneOffsetAction_" + std::to_string(counter_));
         a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (a->object_ == nullptr)
+        {
+            LOG_ERROR("Object {} not found, ignoring injected action {}", action.id, a->GetName());
+            delete a;
+            return;
+        }
 
         SetTransitionShape(a->transition_, action.transition_shape);
         a->max_num_executions_ = 1;
-- 
2.43.0


From 6bfc80cb51dc6ddae088dfe403c9ea7ab560f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 73/73] fix: measure free space distance to all parts of a
 train, also when the target is a trailer

The search for the front vehicle of the target tested the wrong pointer, so a
trailer as target dereferenced a null pointer. Along the road, only the
target itself was measured instead of every vehicle of its train.
---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 1712674..3d2ed26 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1074,7 +1074,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1131,7 +1131,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1146,7 +1146,7 @@ int Object::Distance(Object*                           target,
                        ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(candidate_info.pos_diff.dt) > 0.0) ||
                         (relDistType == RelativeDistanceType::REL_DIST_LONGITUDINAL && fabs(candidate_info.pos_diff.ds) > 0.0)))
                 {
-                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target, &pos_diff, cs);
+                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target_obj, &pos_diff, cs);
                     if (return_value == 0)
                     {
                         if ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(pos_diff.dt) < fabs(candidate_info.pos_diff.dt)) ||
-- 
2.43.0

